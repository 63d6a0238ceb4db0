package tokenmanager

// VXRotate does what the rotation loop does every hour.
func VXRotate(tm *TokenManager) error { return tm.rotateKeys() }

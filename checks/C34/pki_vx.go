package pki

// VXSerials lists the serial numbers of the certificates, and whether they are
// revoked.
func VXSerials(m *PKIManager) map[string]bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := map[string]bool{}
	for _, c := range m.db.IssuedCerts {
		out[c.SerialNumber] = c.Revocation != nil
	}
	return out
}

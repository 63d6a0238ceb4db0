package ocspcache

// VXFlush does what the flush loop does every minute.
func VXFlush(c *OCSPCache) error { return c.flush() }

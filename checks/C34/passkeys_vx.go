package passkeys

import (
	"encoding/hex"
	"encoding/json"
	"errors"
)

// VXAdd registers a passkey, the way the endpoints do.
func VXAdd(m *Manager, email string) (string, error) {
	claims := map[string]any{"email": email, "sub": email}
	auth, err := NewFakeAuthenticator()
	if err != nil {
		return "", err
	}
	auth.SetOrigin("https://passkeys.example.com")
	opts, err := m.attestationOptions(claims)
	if err != nil {
		return "", err
	}
	cd, ao, err := auth.Create(opts)
	if err != nil {
		return "", err
	}
	args, err := json.Marshal(map[string]any{"clientDataJSON": Bytes(cd), "attestationObject": Bytes(ao), "transports": []string{"usb"}})
	if err != nil {
		return "", err
	}
	var id string
	for k := range auth.keys {
		id = hex.EncodeToString(auth.keys[k].id)
	}
	if _, err := m.processAttestation(claims, "passkeys.example.com", string(args), true); err != nil {
		return id, err
	}
	return id, nil
}

// VXKeys lists the passkeys of a user.
func VXKeys(m *Manager, email string) []string {
	var out []string
	for _, k := range m.keys(email) {
		out = append(out, k.ID)
	}
	return out
}

// VXDelete removes a passkey.
func VXDelete(m *Manager, email, id string) error {
	b, err := hex.DecodeString(id)
	if err != nil {
		return err
	}
	err = m.deleteKey(email, b)
	if err == nil {
		for _, k := range VXKeys(m, email) {
			if k == id {
				return errors.New("not deleted")
			}
		}
	}
	return err
}

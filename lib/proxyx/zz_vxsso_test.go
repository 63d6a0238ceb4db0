package proxy

import (
	"crypto/sha256"
	"encoding/hex"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/internal/vx"
)

// vxIDP is a provider configuration whose endpoints are never contacted.
func vxIDP(name, domain, redirect string) *ConfigOIDC {
	return &ConfigOIDC{
		Name:          name,
		AuthEndpoint:  "https://idp.example.org/" + name + "/auth",
		TokenEndpoint: "https://idp.example.org/" + name + "/token",
		RedirectURL:   redirect,
		ClientID:      "CLIENTID",
		ClientSecret:  "CLIENTSECRET",
		Domain:        domain,
	}
}

// vxSession returns the claims of a login session as the cookie manager makes
// them. Callers change what they want to vary.
func vxSession(provider, issuer, email, host string, now time.Time) jwt.MapClaims {
	hh := sha256.Sum256([]byte(host))
	return jwt.MapClaims{
		"iat":       now.Unix(),
		"exp":       now.Add(20 * time.Hour).Unix(),
		"iss":       issuer,
		"aud":       issuer,
		"sub":       "sub-" + email,
		"email":     email,
		"proxyauth": issuer,
		"provider":  provider,
		"hhash":     hex.EncodeToString(hh[:]),
		"sid":       "sid-" + email,
	}
}

// vxIDToken returns the claims of an ID token for a host.
func vxIDToken(provider, issuer, email, audience string, now time.Time) jwt.MapClaims {
	return jwt.MapClaims{
		"iat":      now.Unix(),
		"exp":      now.Add(20 * time.Hour).Unix(),
		"iss":      issuer,
		"aud":      audience,
		"sub":      "sub-" + email,
		"email":    email,
		"sid":      "sid-" + email,
		"provider": provider,
	}
}

func (p *vxProxy) vxToken(r *vx.R, c jwt.MapClaims, alg string) string {
	s, err := p.tokenManager.CreateToken(c, alg)
	if err != nil {
		r.T.Fatal(err)
	}
	return s
}

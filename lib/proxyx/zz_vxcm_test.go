package proxy

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net/http"
	"sync"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"

	"path/filepath"
)

// vxCertManager issues ECDSA certificates for any name, valid for a century
// (so that harnesses with a virtual clock can use them).
type vxCertManager struct {
	mu    sync.Mutex
	key   *ecdsa.PrivateKey
	ca    *x509.Certificate
	pem   string
	pool  *x509.CertPool
	certs map[string]*tls.Certificate
	sn    int64
}

var (
	vxLongAgo = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	vxFarAway = time.Date(2099, 1, 1, 0, 0, 0, 0, time.UTC)
)

func vxNewCertManager(name string) *vxCertManager {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: vxLongAgo, NotAfter: vxFarAway,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: true,
	}
	b, err := x509.CreateCertificate(rand.Reader, templ, templ, key.Public(), key)
	if err != nil {
		panic(err)
	}
	ca, _ := x509.ParseCertificate(b)
	cm := &vxCertManager{key: key, ca: ca, pool: x509.NewCertPool(), certs: map[string]*tls.Certificate{}, sn: 1,
		pem: string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}))}
	cm.pool.AddCert(ca)
	return cm
}

// issue makes a new certificate; mod can change the template.
func (cm *vxCertManager) issue(name string, mod func(*x509.Certificate)) *tls.Certificate {
	cm.sn++
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(cm.sn), Subject: pkix.Name{CommonName: name}, NotBefore: vxLongAgo, NotAfter: vxFarAway,
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true,
		DNSNames: []string{name},
	}
	if mod != nil {
		mod(templ)
	}
	b, err := x509.CreateCertificate(rand.Reader, templ, cm.ca, key.Public(), cm.key)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(b)
	if err != nil {
		panic(err)
	}
	return &tls.Certificate{Certificate: [][]byte{b}, PrivateKey: key, Leaf: leaf}
}

func (cm *vxCertManager) GetCert(name string) (*tls.Certificate, error) {
	cm.mu.Lock()
	defer cm.mu.Unlock()
	if c := cm.certs[name]; c != nil {
		return c, nil
	}
	c := cm.issue(name, nil)
	cm.certs[name] = c
	return c, nil
}

func (cm *vxCertManager) GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	return cm.GetCert(hello.ServerName)
}
func (cm *vxCertManager) TLSConfig() *tls.Config {
	return &tls.Config{GetCertificate: cm.GetCertificate}
}
func (cm *vxCertManager) HTTPHandler(fallback http.Handler) http.Handler { return fallback }
func (cm *vxCertManager) RootCAPEM() string                              { return cm.pem }
func (cm *vxCertManager) RootCACertPool() *x509.CertPool                 { return cm.pool }

type vxLog struct{}

func (vxLog) Debug(...any)          {}
func (vxLog) Debugf(string, ...any) {}
func (vxLog) Info(...any)           {}
func (vxLog) Infof(string, ...any)  {}
func (vxLog) Error(...any)          {}
func (vxLog) Errorf(string, ...any) {}
func (vxLog) Fatal(...any)          {}
func (vxLog) Fatalf(string, ...any) {}

// vxMakeProxy builds a proxy in the way newTestProxy does.
func vxMakeProxy(cfg *Config, cm *vxCertManager) (*Proxy, error) {
	mk, err := crypto.CreateMasterKey(crypto.WithLogger(vxLog{}), crypto.WithStrictWipe(false))
	if err != nil {
		return nil, err
	}
	store := storage.New(filepath.Join(cfg.CacheDir, "test"), mk)
	tm, err := tokenmanager.New(store, nil, nil)
	if err != nil {
		return nil, err
	}
	p := &Proxy{
		certManager:  cm,
		mk:           mk,
		store:        store,
		tokenManager: tm,
		bwLimits:     make(map[string]*bwLimit),
		inConns:      newConnTracker(),
		outConns:     newConnTracker(),
	}
	p.ocspCache = ocspcache.New(store, p.extLogger())
	return p, p.Reconfigure(cfg)
}

package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"html"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verif/mc"
)

// program is a run of the program.
type program struct {
	t    *mc.T
	h    http.Handler // nil if it does not serve
	code error
	th   *mc.T
}

// start runs the program with arguments until it serves the web UI or has ended. The exploration of schedules is off from then on.
func start(t *mc.T, args ...string) *program {
	p := &program{t: t}
	mc.Calm()
	mc.ClearExt("http")
	mc.ClearExt("main-ended")
	mc.ClearExt("fatal")
	traceapp.ReloadTemplates = false // parsing them for every page takes most of the time of an execution
	p.th = t.Go("program", func() {
		CLI.Options = 0
		_, p.code = CLI.ParseArgs(args)
		mc.SetExt("main-ended")
	})
	if h, ok := mc.HTTPHandler().(http.Handler); ok {
		p.h = h
	}
	return p
}

// failed makes sure that a program that does not serve has ended with an error.
func (p *program) failed(what string) {
	if p.h == nil && p.code == nil && !mc.Fatal() {
		p.t.Fail("%s: the program has ended as if all was well", what)
	}
}

type request struct {
	method, target, body string
	header               http.Header
}

func do(h http.Handler, r request) *httptest.ResponseRecorder {
	u, err := url.Parse(r.target)
	if err != nil {
		mc.Fail("%v", err)
	}
	if r.header == nil {
		r.header = http.Header{}
	}
	if r.method == "" {
		r.method = "GET"
	}
	q := &http.Request{Method: r.method, URL: u, Header: r.header, Host: "example.com", RequestURI: u.RequestURI(), RemoteAddr: "192.0.2.1:1234",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(strings.NewReader(r.body)), ContentLength: int64(len(r.body))}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, q)
	return w
}

func pick(tier string, q, th int) int {
	if tier == "quick" {
		return q
	}
	return th
}

// attrs finds attributes in a page.
func attrs(page string, re *regexp.Regexp) (l []string) {
	for _, m := range re.FindAllStringSubmatch(page, -1) {
		l = append(l, html.UnescapeString(m[1]))
	}
	return
}

// certificate makes a certificate and its key.
var certPEM, keyPEM = func() ([]byte, []byte) {
	if os.Getenv("VERIF_SCRATCH") == "" {
		return nil, nil
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<32, 0)}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	kd, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
}()

func putCert() {
	mc.FSPut("/etc/cert.pem", certPEM)
	mc.FSPut("/etc/key.pem", keyPEM)
}

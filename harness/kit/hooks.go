package kit

import (
	"context"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage"
)

// Hook surrounds every call of a dependency of the services: it may record, delay, fail or skip do.
type Hook func(ctx context.Context, op string, do func() error) error

// Stores gathers the dependencies of the services.
type Stores struct {
	Clients   storage.Client
	Tokens    storage.Token
	AuthReqs  storage.AuthorizationRequest
	Codes     storage.AuthorizationCodeSession
	Devices   storage.DeviceCodeSession
	DPoP      storage.DPoP
	Resources storage.Resource

	CodeGen    generator.AuthorizationCode
	URIGen     generator.RequestURI
	DeviceGen  generator.DeviceCode
	UserGen    generator.DeviceUserCode
	AccessGen  token.Generator
	RefreshGen token.Generator
}

// Wrap surrounds every dependency with h.
func Wrap(s Stores, h Hook) Stores {
	return Stores{
		Clients: &hClients{s.Clients, h}, Tokens: &hTokens{s.Tokens, h}, AuthReqs: &hAuthReqs{s.AuthReqs, h},
		Codes: &hCodes{s.Codes, h}, Devices: &hDevices{s.Devices, h}, DPoP: &hDPoP{s.DPoP, h}, Resources: &hResources{s.Resources, h},
		CodeGen: &hGen{"codegen", s.CodeGen.Generate, s.CodeGen.Validate, h}, URIGen: &hGen{"urigen", s.URIGen.Generate, s.URIGen.Validate, h},
		DeviceGen: &hGen{"devicegen", s.DeviceGen.Generate, s.DeviceGen.Validate, h}, UserGen: &hGen{"usergen", s.UserGen.Generate, nil, h},
		AccessGen: &hTokGen{"atgen", s.AccessGen, h}, RefreshGen: &hTokGen{"rtgen", s.RefreshGen, h},
	}
}

func get[T any](ctx context.Context, h Hook, op string, f func() (T, error)) (T, error) {
	var out T
	err := h(ctx, op, func() error {
		var e error
		out, e = f()
		return e
	})
	if err != nil {
		var zero T
		return zero, err
	}
	return out, nil
}

type hClients struct {
	s storage.Client
	h Hook
}

func (w *hClients) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	return get(ctx, w.h, "clients.Get", func() (*clientv1.Client, error) { return w.s.Get(ctx, id) })
}
func (w *hClients) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return get(ctx, w.h, "clients.GetByName", func() (*clientv1.Client, error) { return w.s.GetByName(ctx, n) })
}
func (w *hClients) Register(ctx context.Context, c *clientv1.Client) (string, error) {
	return get(ctx, w.h, "clients.Register", func() (string, error) { return w.s.Register(ctx, c) })
}

type hTokens struct {
	s storage.Token
	h Hook
}

func (w *hTokens) Get(ctx context.Context, iss, id string) (*tokenv1.Token, error) {
	return get(ctx, w.h, "tokens.Get", func() (*tokenv1.Token, error) { return w.s.Get(ctx, iss, id) })
}
func (w *hTokens) GetByValue(ctx context.Context, iss, v string) (*tokenv1.Token, error) {
	return get(ctx, w.h, "tokens.GetByValue", func() (*tokenv1.Token, error) { return w.s.GetByValue(ctx, iss, v) })
}
func (w *hTokens) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	return w.h(ctx, "tokens.Create", func() error { return w.s.Create(ctx, iss, t) })
}
func (w *hTokens) Delete(ctx context.Context, iss, id string) error {
	return w.h(ctx, "tokens.Delete", func() error { return w.s.Delete(ctx, iss, id) })
}
func (w *hTokens) Revoke(ctx context.Context, iss, id string) error {
	return w.h(ctx, "tokens.Revoke", func() error { return w.s.Revoke(ctx, iss, id) })
}

type hAuthReqs struct {
	s storage.AuthorizationRequest
	h Hook
}

func (w *hAuthReqs) Get(ctx context.Context, iss, u string) (*flowv1.AuthorizationRequest, error) {
	return get(ctx, w.h, "authreqs.Get", func() (*flowv1.AuthorizationRequest, error) { return w.s.Get(ctx, iss, u) })
}
func (w *hAuthReqs) Register(ctx context.Context, iss, u string, r *flowv1.AuthorizationRequest) (uint64, error) {
	return get(ctx, w.h, "authreqs.Register", func() (uint64, error) { return w.s.Register(ctx, iss, u, r) })
}
func (w *hAuthReqs) Delete(ctx context.Context, iss, u string) error {
	return w.h(ctx, "authreqs.Delete", func() error { return w.s.Delete(ctx, iss, u) })
}

type hCodes struct {
	s storage.AuthorizationCodeSession
	h Hook
}

func (w *hCodes) Get(ctx context.Context, iss, c string) (*sessionv1.AuthorizationCodeSession, error) {
	return get(ctx, w.h, "codes.Get", func() (*sessionv1.AuthorizationCodeSession, error) { return w.s.Get(ctx, iss, c) })
}
func (w *hCodes) Register(ctx context.Context, iss, c string, r *sessionv1.AuthorizationCodeSession) (uint64, error) {
	return get(ctx, w.h, "codes.Register", func() (uint64, error) { return w.s.Register(ctx, iss, c, r) })
}
func (w *hCodes) Delete(ctx context.Context, iss, c string) error {
	return w.h(ctx, "codes.Delete", func() error { return w.s.Delete(ctx, iss, c) })
}

type hDevices struct {
	s storage.DeviceCodeSession
	h Hook
}

func (w *hDevices) GetByDeviceCode(ctx context.Context, iss, c string) (*sessionv1.DeviceCodeSession, error) {
	return get(ctx, w.h, "devices.GetByDeviceCode", func() (*sessionv1.DeviceCodeSession, error) { return w.s.GetByDeviceCode(ctx, iss, c) })
}
func (w *hDevices) GetByUserCode(ctx context.Context, iss, c string) (*sessionv1.DeviceCodeSession, error) {
	return get(ctx, w.h, "devices.GetByUserCode", func() (*sessionv1.DeviceCodeSession, error) { return w.s.GetByUserCode(ctx, iss, c) })
}
func (w *hDevices) Register(ctx context.Context, iss, c string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	return get(ctx, w.h, "devices.Register", func() (uint64, error) { return w.s.Register(ctx, iss, c, r) })
}
func (w *hDevices) Delete(ctx context.Context, iss, c string) error {
	return w.h(ctx, "devices.Delete", func() error { return w.s.Delete(ctx, iss, c) })
}
func (w *hDevices) Validate(ctx context.Context, iss, c string, r *sessionv1.DeviceCodeSession) error {
	return w.h(ctx, "devices.Validate", func() error { return w.s.Validate(ctx, iss, c, r) })
}

type hDPoP struct {
	s storage.DPoP
	h Hook
}

func (w *hDPoP) Register(ctx context.Context, id string) error {
	return w.h(ctx, "dpop.Register", func() error { return w.s.Register(ctx, id) })
}
func (w *hDPoP) Delete(ctx context.Context, id string) error {
	return w.h(ctx, "dpop.Delete", func() error { return w.s.Delete(ctx, id) })
}
func (w *hDPoP) Exists(ctx context.Context, id string) (bool, error) {
	return get(ctx, w.h, "dpop.Exists", func() (bool, error) { return w.s.Exists(ctx, id) })
}

type hResources struct {
	s storage.Resource
	h Hook
}

func (w *hResources) GetByURI(ctx context.Context, u string) (*resourcev1.Resource, error) {
	return get(ctx, w.h, "resources.GetByURI", func() (*resourcev1.Resource, error) { return w.s.GetByURI(ctx, u) })
}

type hGen struct {
	n string
	g func(ctx context.Context, issuer string) (string, error)
	v func(ctx context.Context, issuer, in string) error
	h Hook
}

func (w *hGen) Generate(ctx context.Context, iss string) (string, error) {
	return get(ctx, w.h, w.n+".Generate", func() (string, error) { return w.g(ctx, iss) })
}
func (w *hGen) Validate(ctx context.Context, iss, in string) error {
	return w.h(ctx, w.n+".Validate", func() error { return w.v(ctx, iss, in) })
}

type hTokGen struct {
	n string
	g token.Generator
	h Hook
}

func (w *hTokGen) Generate(ctx context.Context, t *tokenv1.Token) (string, error) {
	var out string
	err := w.h(ctx, w.n+".Generate", func() error {
		var e error
		out, e = w.g.Generate(ctx, t)
		return e
	})
	if err == ErrEmptyValue { // injected fault: success with an empty value
		return "", nil
	}
	if err != nil {
		return "", err
	}
	return out, nil
}

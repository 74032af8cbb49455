package kit

import (
	"context"
	"sync"
	"time"

	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/storage"
)

// lazyDevices is a device session storage which keeps what has expired, as a database without eviction does.
type lazyDevices struct {
	mu     sync.Mutex
	user   map[string]*sessionv1.DeviceCodeSession
	device map[string]*sessionv1.DeviceCodeSession
	ttl    time.Duration
}

// LazyDevices returns such a storage, whose sessions live for ttl.
func LazyDevices(ttl time.Duration) storage.DeviceCodeSession {
	return &lazyDevices{ttl: ttl, user: map[string]*sessionv1.DeviceCodeSession{}, device: map[string]*sessionv1.DeviceCodeSession{}}
}

func (l *lazyDevices) Register(_ context.Context, issuer, userCode string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	s := Clone(r)
	s.ExpiresAt = uint64(time.Now().Add(l.ttl).Unix())
	l.mu.Lock()
	defer l.mu.Unlock()
	l.user[issuer+"\x00"+userCode], l.device[issuer+"\x00"+r.DeviceCode] = s, s
	return uint64(l.ttl / time.Second), nil
}

func (l *lazyDevices) Delete(_ context.Context, issuer, userCode string) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	delete(l.user, issuer+"\x00"+userCode)
	return nil
}

func (l *lazyDevices) Validate(_ context.Context, issuer, userCode string, r *sessionv1.DeviceCodeSession) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	cur, ok := l.user[issuer+"\x00"+userCode]
	if !ok || cur.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {
		return storage.ErrNotFound
	}
	s := Clone(r)
	l.user[issuer+"\x00"+userCode], l.device[issuer+"\x00"+r.DeviceCode] = s, s
	return nil
}

func (l *lazyDevices) get(m map[string]*sessionv1.DeviceCodeSession, key string) (*sessionv1.DeviceCodeSession, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if s, ok := m[key]; ok {
		return Clone(s), nil
	}
	return nil, storage.ErrNotFound
}

func (l *lazyDevices) GetByDeviceCode(_ context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	return l.get(l.device, issuer+"\x00"+code)
}

func (l *lazyDevices) GetByUserCode(_ context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	return l.get(l.user, issuer+"\x00"+code)
}

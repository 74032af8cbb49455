package kit

import corev1 "zntr.io/solid/api/oidc/core/v1"

// E is the public error message.
type E = corev1.Error

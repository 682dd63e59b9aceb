package responder

//vx:stub github.com/netsec-ethz/fpki/pkg/common/crypto.SignBytes => vxSign

module verif/driver

go 1.16

require github.com/sfomuseum/go-edtf v0.0.0

replace github.com/sfomuseum/go-edtf => /repo

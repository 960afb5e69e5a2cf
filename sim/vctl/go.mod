module vctl

go 1.21

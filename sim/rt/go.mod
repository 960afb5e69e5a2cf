module asn1sim

go 1.21

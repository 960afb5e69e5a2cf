module asn1harness

go 1.21

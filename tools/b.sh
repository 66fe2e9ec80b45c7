#!/bin/bash
cd /verif/checker && gofmt -l *.go; go vet . && go build -mod=vendor -o /verif/bin/checker . 

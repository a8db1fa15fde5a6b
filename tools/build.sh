#!/bin/bash
cd /verif/checker && . /opt/vp/env.sh && GOFLAGS=-mod=mod go build -o ../bin/checker .

package main

import "github.com/prospik/libsignal-protocol-go/state/record"

type recView = *record.Session

// Package mmo is the program of /repo/zinx_app_demo/mmo_game, made importable:
// its server.go comes in through the overlay (tool/instr.go, demo).
package mmo

import "github.com/aceld/zinx/ziface"

// Running is given the server where the program would wait for a signal.
var Running func(ziface.IServer)

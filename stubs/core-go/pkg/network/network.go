// Package network is a stand-in for gitlab.com/alephledger/core-go/pkg/network, which cannot be
// fetched here: only the interfaces the repository under study uses.
package network

import "time"

// Connection is a bidirectional byte stream with buffered writes.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
	TimeoutAfter(time.Duration)
}

// Server establishes connections between parties.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}

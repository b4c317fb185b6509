// Generated pass-through of package net, except for what this package simulates.

package vnet

import "net"

type (
	Addr                = net.Addr
	AddrError           = net.AddrError
	Buffers             = net.Buffers
	Conn                = net.Conn
	DNSConfigError      = net.DNSConfigError
	DNSError            = net.DNSError
	Error               = net.Error
	Flags               = net.Flags
	HardwareAddr        = net.HardwareAddr
	IP                  = net.IP
	IPAddr              = net.IPAddr
	IPConn              = net.IPConn
	IPMask              = net.IPMask
	IPNet               = net.IPNet
	Interface           = net.Interface
	InvalidAddrError    = net.InvalidAddrError
	KeepAliveConfig     = net.KeepAliveConfig
	Listener            = net.Listener
	MX                  = net.MX
	NS                  = net.NS
	OpError             = net.OpError
	PacketConn          = net.PacketConn
	ParseError          = net.ParseError
	Resolver            = net.Resolver
	SRV                 = net.SRV
	TCPAddr             = net.TCPAddr
	TCPConn             = net.TCPConn
	TCPListener         = net.TCPListener
	UDPAddr             = net.UDPAddr
	UnixAddr            = net.UnixAddr
	UnixConn            = net.UnixConn
	UnixListener        = net.UnixListener
	UnknownNetworkError = net.UnknownNetworkError
)

const (
	FlagBroadcast    = net.FlagBroadcast
	FlagLoopback     = net.FlagLoopback
	FlagMulticast    = net.FlagMulticast
	FlagPointToPoint = net.FlagPointToPoint
	FlagRunning      = net.FlagRunning
	FlagUp           = net.FlagUp
	IPv4len          = net.IPv4len
	IPv6len          = net.IPv6len
)

var (
	CIDRMask                   = net.CIDRMask
	DefaultResolver            = net.DefaultResolver
	DialIP                     = net.DialIP
	DialUnix                   = net.DialUnix
	ErrClosed                  = net.ErrClosed
	ErrWriteToConnected        = net.ErrWriteToConnected
	FileConn                   = net.FileConn
	FileListener               = net.FileListener
	FilePacketConn             = net.FilePacketConn
	IPv4                       = net.IPv4
	IPv4Mask                   = net.IPv4Mask
	IPv4allrouter              = net.IPv4allrouter
	IPv4allsys                 = net.IPv4allsys
	IPv4bcast                  = net.IPv4bcast
	IPv4zero                   = net.IPv4zero
	IPv6interfacelocalallnodes = net.IPv6interfacelocalallnodes
	IPv6linklocalallnodes      = net.IPv6linklocalallnodes
	IPv6linklocalallrouters    = net.IPv6linklocalallrouters
	IPv6loopback               = net.IPv6loopback
	IPv6unspecified            = net.IPv6unspecified
	IPv6zero                   = net.IPv6zero
	InterfaceAddrs             = net.InterfaceAddrs
	InterfaceByIndex           = net.InterfaceByIndex
	InterfaceByName            = net.InterfaceByName
	Interfaces                 = net.Interfaces
	JoinHostPort               = net.JoinHostPort
	ListenIP                   = net.ListenIP
	ListenMulticastUDP         = net.ListenMulticastUDP
	ListenUnix                 = net.ListenUnix
	ListenUnixgram             = net.ListenUnixgram
	LookupAddr                 = net.LookupAddr
	LookupCNAME                = net.LookupCNAME
	LookupHost                 = net.LookupHost
	LookupIP                   = net.LookupIP
	LookupMX                   = net.LookupMX
	LookupNS                   = net.LookupNS
	LookupPort                 = net.LookupPort
	LookupSRV                  = net.LookupSRV
	LookupTXT                  = net.LookupTXT
	ParseCIDR                  = net.ParseCIDR
	ParseIP                    = net.ParseIP
	ParseMAC                   = net.ParseMAC
	Pipe                       = net.Pipe
	ResolveIPAddr              = net.ResolveIPAddr
	ResolveTCPAddr             = net.ResolveTCPAddr
	ResolveUnixAddr            = net.ResolveUnixAddr
	SplitHostPort              = net.SplitHostPort
	TCPAddrFromAddrPort        = net.TCPAddrFromAddrPort
	UDPAddrFromAddrPort        = net.UDPAddrFromAddrPort
)

// Generated list of everything that package net exports.

package vnet

import "net"

type Addr = net.Addr
type AddrError = net.AddrError
type Buffers = net.Buffers

var CIDRMask = net.CIDRMask

type Conn = net.Conn
type DNSConfigError = net.DNSConfigError
type DNSError = net.DNSError

var DefaultResolver = net.DefaultResolver
var DialIP = net.DialIP
var DialTCP = net.DialTCP
var DialUDP = net.DialUDP
var DialUnix = net.DialUnix
var ErrClosed = net.ErrClosed
var ErrWriteToConnected = net.ErrWriteToConnected

type Error = net.Error

var FileConn = net.FileConn
var FileListener = net.FileListener
var FilePacketConn = net.FilePacketConn

const FlagBroadcast = net.FlagBroadcast
const FlagLoopback = net.FlagLoopback
const FlagMulticast = net.FlagMulticast
const FlagPointToPoint = net.FlagPointToPoint
const FlagRunning = net.FlagRunning
const FlagUp = net.FlagUp

type Flags = net.Flags
type HardwareAddr = net.HardwareAddr
type IP = net.IP
type IPAddr = net.IPAddr
type IPConn = net.IPConn
type IPMask = net.IPMask
type IPNet = net.IPNet

var IPv4 = net.IPv4
var IPv4Mask = net.IPv4Mask
var IPv4allrouter = net.IPv4allrouter
var IPv4allsys = net.IPv4allsys
var IPv4bcast = net.IPv4bcast

const IPv4len = net.IPv4len

var IPv4zero = net.IPv4zero
var IPv6interfacelocalallnodes = net.IPv6interfacelocalallnodes

const IPv6len = net.IPv6len

var IPv6linklocalallnodes = net.IPv6linklocalallnodes
var IPv6linklocalallrouters = net.IPv6linklocalallrouters
var IPv6loopback = net.IPv6loopback
var IPv6unspecified = net.IPv6unspecified
var IPv6zero = net.IPv6zero

type Interface = net.Interface

var InterfaceAddrs = net.InterfaceAddrs
var InterfaceByIndex = net.InterfaceByIndex
var InterfaceByName = net.InterfaceByName
var Interfaces = net.Interfaces

type InvalidAddrError = net.InvalidAddrError

var JoinHostPort = net.JoinHostPort

type KeepAliveConfig = net.KeepAliveConfig

var ListenIP = net.ListenIP
var ListenMulticastUDP = net.ListenMulticastUDP
var ListenPacket = net.ListenPacket
var ListenTCP = net.ListenTCP
var ListenUnix = net.ListenUnix
var ListenUnixgram = net.ListenUnixgram

type Listener = net.Listener

var LookupAddr = net.LookupAddr
var LookupCNAME = net.LookupCNAME
var LookupHost = net.LookupHost
var LookupIP = net.LookupIP
var LookupMX = net.LookupMX
var LookupNS = net.LookupNS
var LookupPort = net.LookupPort
var LookupSRV = net.LookupSRV
var LookupTXT = net.LookupTXT

type MX = net.MX
type NS = net.NS
type OpError = net.OpError
type PacketConn = net.PacketConn

var ParseCIDR = net.ParseCIDR

type ParseError = net.ParseError

var ParseIP = net.ParseIP
var ParseMAC = net.ParseMAC
var Pipe = net.Pipe
var ResolveIPAddr = net.ResolveIPAddr
var ResolveTCPAddr = net.ResolveTCPAddr
var ResolveUDPAddr = net.ResolveUDPAddr
var ResolveUnixAddr = net.ResolveUnixAddr

type Resolver = net.Resolver
type SRV = net.SRV

var SplitHostPort = net.SplitHostPort

type TCPAddr = net.TCPAddr

var TCPAddrFromAddrPort = net.TCPAddrFromAddrPort

type TCPConn = net.TCPConn
type TCPListener = net.TCPListener
type UDPAddr = net.UDPAddr

var UDPAddrFromAddrPort = net.UDPAddrFromAddrPort

type UDPConn = net.UDPConn
type UnixAddr = net.UnixAddr
type UnixConn = net.UnixConn
type UnixListener = net.UnixListener
type UnknownNetworkError = net.UnknownNetworkError

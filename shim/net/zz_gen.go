// Code generated from the exported names of net. DO NOT EDIT.

package net

import zzreal "net"

type Addr = zzreal.Addr
type AddrError = zzreal.AddrError
type Buffers = zzreal.Buffers
var CIDRMask = zzreal.CIDRMask
type Conn = zzreal.Conn
type DNSConfigError = zzreal.DNSConfigError
type DNSError = zzreal.DNSError
var DefaultResolver = zzreal.DefaultResolver
var DialIP = zzreal.DialIP
var DialUnix = zzreal.DialUnix
type Dialer = zzreal.Dialer
var ErrWriteToConnected = zzreal.ErrWriteToConnected
type Error = zzreal.Error
var FileConn = zzreal.FileConn
var FileListener = zzreal.FileListener
var FilePacketConn = zzreal.FilePacketConn
const FlagBroadcast = zzreal.FlagBroadcast
const FlagLoopback = zzreal.FlagLoopback
const FlagMulticast = zzreal.FlagMulticast
const FlagPointToPoint = zzreal.FlagPointToPoint
const FlagRunning = zzreal.FlagRunning
const FlagUp = zzreal.FlagUp
type Flags = zzreal.Flags
type HardwareAddr = zzreal.HardwareAddr
type IP = zzreal.IP
type IPAddr = zzreal.IPAddr
type IPConn = zzreal.IPConn
type IPMask = zzreal.IPMask
type IPNet = zzreal.IPNet
var IPv4 = zzreal.IPv4
var IPv4Mask = zzreal.IPv4Mask
var IPv4allrouter = zzreal.IPv4allrouter
var IPv4allsys = zzreal.IPv4allsys
var IPv4bcast = zzreal.IPv4bcast
const IPv4len = zzreal.IPv4len
var IPv4zero = zzreal.IPv4zero
var IPv6interfacelocalallnodes = zzreal.IPv6interfacelocalallnodes
const IPv6len = zzreal.IPv6len
var IPv6linklocalallnodes = zzreal.IPv6linklocalallnodes
var IPv6linklocalallrouters = zzreal.IPv6linklocalallrouters
var IPv6loopback = zzreal.IPv6loopback
var IPv6unspecified = zzreal.IPv6unspecified
var IPv6zero = zzreal.IPv6zero
type Interface = zzreal.Interface
var InterfaceByIndex = zzreal.InterfaceByIndex
var InterfaceByName = zzreal.InterfaceByName
var Interfaces = zzreal.Interfaces
type InvalidAddrError = zzreal.InvalidAddrError
var JoinHostPort = zzreal.JoinHostPort
type KeepAliveConfig = zzreal.KeepAliveConfig
var Listen = zzreal.Listen
type ListenConfig = zzreal.ListenConfig
var ListenIP = zzreal.ListenIP
var ListenMulticastUDP = zzreal.ListenMulticastUDP
var ListenPacket = zzreal.ListenPacket
var ListenTCP = zzreal.ListenTCP
var ListenUDP = zzreal.ListenUDP
var ListenUnix = zzreal.ListenUnix
var ListenUnixgram = zzreal.ListenUnixgram
type Listener = zzreal.Listener
var LookupAddr = zzreal.LookupAddr
var LookupCNAME = zzreal.LookupCNAME
var LookupIP = zzreal.LookupIP
var LookupMX = zzreal.LookupMX
var LookupNS = zzreal.LookupNS
var LookupPort = zzreal.LookupPort
var LookupSRV = zzreal.LookupSRV
var LookupTXT = zzreal.LookupTXT
type MX = zzreal.MX
type NS = zzreal.NS
type OpError = zzreal.OpError
type PacketConn = zzreal.PacketConn
var ParseCIDR = zzreal.ParseCIDR
type ParseError = zzreal.ParseError
var ParseMAC = zzreal.ParseMAC
var Pipe = zzreal.Pipe
var ResolveIPAddr = zzreal.ResolveIPAddr
var ResolveUnixAddr = zzreal.ResolveUnixAddr
type Resolver = zzreal.Resolver
type SRV = zzreal.SRV
var SplitHostPort = zzreal.SplitHostPort
type TCPAddr = zzreal.TCPAddr
var TCPAddrFromAddrPort = zzreal.TCPAddrFromAddrPort
type TCPListener = zzreal.TCPListener
type UDPAddr = zzreal.UDPAddr
var UDPAddrFromAddrPort = zzreal.UDPAddrFromAddrPort
type UnixAddr = zzreal.UnixAddr
type UnixConn = zzreal.UnixConn
type UnixListener = zzreal.UnixListener
type UnknownNetworkError = zzreal.UnknownNetworkError

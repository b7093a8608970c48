// Code generated from the exported names of sync/atomic. DO NOT EDIT.

package atomic

import zzreal "sync/atomic"

var AddUintptr = zzreal.AddUintptr
var AndInt32 = zzreal.AndInt32
var AndInt64 = zzreal.AndInt64
var AndUint32 = zzreal.AndUint32
var AndUint64 = zzreal.AndUint64
var AndUintptr = zzreal.AndUintptr
var CompareAndSwapPointer = zzreal.CompareAndSwapPointer
var CompareAndSwapUint64 = zzreal.CompareAndSwapUint64
var CompareAndSwapUintptr = zzreal.CompareAndSwapUintptr
var LoadPointer = zzreal.LoadPointer
var LoadUintptr = zzreal.LoadUintptr
var OrInt32 = zzreal.OrInt32
var OrInt64 = zzreal.OrInt64
var OrUint32 = zzreal.OrUint32
var OrUint64 = zzreal.OrUint64
var OrUintptr = zzreal.OrUintptr
var StorePointer = zzreal.StorePointer
var StoreUintptr = zzreal.StoreUintptr
var SwapPointer = zzreal.SwapPointer
var SwapUint32 = zzreal.SwapUint32
var SwapUint64 = zzreal.SwapUint64
var SwapUintptr = zzreal.SwapUintptr
type Uint32 = zzreal.Uint32
type Uint64 = zzreal.Uint64
type Uintptr = zzreal.Uintptr

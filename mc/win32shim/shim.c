#include <objidl.h>
const IID IID_IUnknown = { 0x00000000, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IClassFactory = { 0x00000001, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IMarshal = { 0x00000003, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ILockBytes = { 0x0000000A, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IStorage = { 0x0000000B, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IStream = { 0x0000000C, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IPersistStream = { 0x00000109, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IPersist = { 0x0000010C, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IDispatch = { 0x00020400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0C733A30, 0x2A1C, 0x11CE, { 0xAD, 0xE5, 0x00, 0xAA, 0x00, 0x44, 0x77, 0x3D } };
const IID IID_IAgileObject = { 0x94EA2B94, 0xE9CC, 0x49E0, { 0xC0, 0xFF, 0xEE, 0x64, 0xCA, 0x8F, 0x5B, 0x90 } };

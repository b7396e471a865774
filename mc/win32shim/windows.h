/* The declarations of the Windows SDK that win32/memstream.c can reasonably use, with the sizes they have on Windows. */
#ifndef SHIM_WINDOWS_H
#define SHIM_WINDOWS_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <limits.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint8_t BYTE; typedef uint16_t WORD; typedef uint32_t DWORD; typedef uint32_t ULONG; typedef int32_t LONG; typedef int32_t BOOL; typedef uint32_t UINT; typedef int32_t INT; typedef int64_t LONGLONG; typedef uint64_t ULONGLONG; typedef uint64_t DWORDLONG; typedef int64_t LONG64; typedef uint64_t ULONG64;
typedef size_t SIZE_T; typedef intptr_t LONG_PTR; typedef uintptr_t ULONG_PTR; typedef uintptr_t DWORD_PTR; typedef intptr_t INT_PTR; typedef uintptr_t UINT_PTR;
typedef uint16_t WCHAR; typedef char CHAR; typedef short SHORT; typedef unsigned short USHORT; typedef unsigned char UCHAR; typedef void VOID; typedef void* PVOID; typedef void* LPVOID; typedef const void* LPCVOID; typedef BYTE* LPBYTE; typedef const BYTE* LPCBYTE; typedef WCHAR* LPWSTR; typedef const WCHAR* LPCWSTR; typedef WCHAR* LPOLESTR; typedef DWORD* LPDWORD; typedef ULONG* PULONG;
typedef int32_t HRESULT;
typedef void* HANDLE; typedef struct HINSTANCE__* HINSTANCE; typedef HINSTANCE HMODULE; typedef struct HRSRC__* HRSRC; typedef void* HGLOBAL;
typedef union LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct GUID { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID; typedef GUID IID; typedef GUID CLSID;
typedef const GUID* REFIID; typedef const GUID* REFGUID; typedef const GUID* REFCLSID;
typedef struct FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#define STDMETHODCALLTYPE
#define WINAPI
#define CALLBACK
#define CONST const
#define IN
#define OUT
#define UNREFERENCED_PARAMETER(p) ((void)(p))
#define S_OK            ((HRESULT)0)
#define S_FALSE         ((HRESULT)1)
#define NOERROR         0
#define E_NOTIMPL       ((HRESULT)0x80004001)
#define E_NOINTERFACE   ((HRESULT)0x80004002)
#define E_POINTER       ((HRESULT)0x80004003)
#define E_ABORT         ((HRESULT)0x80004004)
#define E_FAIL          ((HRESULT)0x80004005)
#define E_UNEXPECTED    ((HRESULT)0x8000FFFF)
#define E_ACCESSDENIED  ((HRESULT)0x80070005)
#define E_HANDLE        ((HRESULT)0x80070006)
#define E_OUTOFMEMORY   ((HRESULT)0x8007000E)
#define E_INVALIDARG    ((HRESULT)0x80070057)
#define STG_E_INVALIDFUNCTION   ((HRESULT)0x80030001)
#define STG_E_FILENOTFOUND      ((HRESULT)0x80030002)
#define STG_E_ACCESSDENIED      ((HRESULT)0x80030005)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT)0x80030008)
#define STG_E_INVALIDPOINTER    ((HRESULT)0x80030009)
#define STG_E_SEEKERROR         ((HRESULT)0x80030019)
#define STG_E_WRITEFAULT        ((HRESULT)0x8003001D)
#define STG_E_READFAULT         ((HRESULT)0x8003001E)
#define STG_E_INVALIDPARAMETER  ((HRESULT)0x80030057)
#define STG_E_MEDIUMFULL        ((HRESULT)0x80030070)
#define STG_E_INVALIDFLAG       ((HRESULT)0x800300FF)
#define STG_E_CANTSAVE          ((HRESULT)0x80030103)
#define STG_E_REVERTED          ((HRESULT)0x80030102)
#define SUCCEEDED(hr)   ((HRESULT)(hr) >= 0)
#define FAILED(hr)      ((HRESULT)(hr) < 0)
#define FACILITY_WIN32  7
#define HRESULT_FROM_WIN32(x) ((HRESULT)(x) <= 0 ? (HRESULT)(x) : (HRESULT)(((x) & 0x0000FFFF) | (FACILITY_WIN32 << 16) | 0x80000000))
#define ERROR_SUCCESS           0
#define ERROR_FILE_NOT_FOUND    2
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_INVALID_DATA      13
#define ERROR_OUTOFMEMORY       14
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812
#define ERROR_RESOURCE_TYPE_NOT_FOUND 1813
#define ERROR_RESOURCE_NAME_NOT_FOUND 1814
#define STREAM_SEEK_SET 0
#define STREAM_SEEK_CUR 1
#define STREAM_SEEK_END 2
#define FILE_BEGIN 0
#define FILE_CURRENT 1
#define FILE_END 2
#define MAXDWORD 0xffffffffu
#define MAXLONG 0x7fffffff
#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))
#define FillMemory(d, n, c) memset((d), (c), (n))
#ifndef __cplusplus
#ifndef min
#define min(a, b) (((a) < (b)) ? (a) : (b))
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#endif
#define IsEqualGUID(a, b) (memcmp((a), (b), sizeof(GUID)) == 0)
#define IsEqualIID(a, b) IsEqualGUID(a, b)
/* interlocked operations: each is one atomic step */
LONG shim_interlocked_add(volatile LONG* p, LONG d);        /* new value */
LONG shim_interlocked_xchg(volatile LONG* p, LONG v);       /* old value */
LONG shim_interlocked_cas(volatile LONG* p, LONG v, LONG cmp);      /* old value */
#define InterlockedIncrement(p) shim_interlocked_add((volatile LONG*)(p), 1)
#define InterlockedDecrement(p) shim_interlocked_add((volatile LONG*)(p), -1)
#define InterlockedIncrementAcquire InterlockedIncrement
#define InterlockedIncrementRelease InterlockedIncrement
#define InterlockedIncrementNoFence InterlockedIncrement
#define InterlockedDecrementAcquire InterlockedDecrement
#define InterlockedDecrementRelease InterlockedDecrement
#define InterlockedDecrementNoFence InterlockedDecrement
#define InterlockedExchangeAdd(p, d) (shim_interlocked_add((volatile LONG*)(p), (d)) - (d))
#define InterlockedAdd(p, d) shim_interlocked_add((volatile LONG*)(p), (d))
#define InterlockedExchange(p, v) shim_interlocked_xchg((volatile LONG*)(p), (v))
#define InterlockedCompareExchange(p, v, c) shim_interlocked_cas((volatile LONG*)(p), (v), (c))
/* resources */
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type);
DWORD SizeofResource(HMODULE m, HRSRC r);
HGLOBAL LoadResource(HMODULE m, HRSRC r);
LPVOID LockResource(HGLOBAL g);
BOOL FreeResource(HGLOBAL g);
DWORD GetLastError(void);
void SetLastError(DWORD e);
#ifdef __cplusplus
}
#endif
#endif

#ifndef SHIM_OBJIDL_H
#define SHIM_OBJIDL_H
#include <windows.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct STATSTG { LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; FILETIME mtime, ctime, atime; DWORD grfMode, grfLocksSupported; CLSID clsid; DWORD grfStateBits, reserved; } STATSTG;
typedef enum { STGTY_STORAGE = 1, STGTY_STREAM = 2, STGTY_LOCKBYTES = 3, STGTY_PROPERTY = 4 } STGTY;
typedef enum { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1, STATFLAG_NOOPEN = 2 } STATFLAG;
typedef enum { LOCK_WRITE = 1, LOCK_EXCLUSIVE = 2, LOCK_ONLYONCE = 4 } LOCKTYPE;
#define STGM_READ 0
#define STGM_WRITE 1
#define STGM_READWRITE 2
#define STGM_SHARE_DENY_NONE 0x40
typedef struct IStream IStream;
typedef struct IUnknown IUnknown;
typedef struct IStreamVtbl {
    HRESULT (STDMETHODCALLTYPE *QueryInterface)(IStream*, REFIID, void**);
    ULONG (STDMETHODCALLTYPE *AddRef)(IStream*);
    ULONG (STDMETHODCALLTYPE *Release)(IStream*);
    HRESULT (STDMETHODCALLTYPE *Read)(IStream*, void*, ULONG, ULONG*);
    HRESULT (STDMETHODCALLTYPE *Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (STDMETHODCALLTYPE *Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*);
    HRESULT (STDMETHODCALLTYPE *SetSize)(IStream*, ULARGE_INTEGER);
    HRESULT (STDMETHODCALLTYPE *CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (STDMETHODCALLTYPE *Commit)(IStream*, DWORD);
    HRESULT (STDMETHODCALLTYPE *Revert)(IStream*);
    HRESULT (STDMETHODCALLTYPE *LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (STDMETHODCALLTYPE *UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (STDMETHODCALLTYPE *Stat)(IStream*, STATSTG*, DWORD);
    HRESULT (STDMETHODCALLTYPE *Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
struct IUnknown { IStreamVtbl* lpVtbl; };
extern const IID IID_IUnknown, IID_ISequentialStream, IID_IStream, IID_IDispatch, IID_IStorage, IID_ILockBytes, IID_IPersist, IID_IPersistStream, IID_IMarshal, IID_IClassFactory, IID_IAgileObject;
#define IStream_QueryInterface(s, a, b) ((s)->lpVtbl->QueryInterface((s), (a), (b)))
#define IStream_AddRef(s) ((s)->lpVtbl->AddRef(s))
#define IStream_Release(s) ((s)->lpVtbl->Release(s))
#define IStream_Read(s, a, b, c) ((s)->lpVtbl->Read((s), (a), (b), (c)))
#define IStream_Write(s, a, b, c) ((s)->lpVtbl->Write((s), (a), (b), (c)))
#define IStream_Seek(s, a, b, c) ((s)->lpVtbl->Seek((s), (a), (b), (c)))
#define IStream_SetSize(s, a) ((s)->lpVtbl->SetSize((s), (a)))
#define IStream_CopyTo(s, a, b, c, d) ((s)->lpVtbl->CopyTo((s), (a), (b), (c), (d)))
#define IStream_Commit(s, a) ((s)->lpVtbl->Commit((s), (a)))
#define IStream_Revert(s) ((s)->lpVtbl->Revert(s))
#define IStream_LockRegion(s, a, b, c) ((s)->lpVtbl->LockRegion((s), (a), (b), (c)))
#define IStream_UnlockRegion(s, a, b, c) ((s)->lpVtbl->UnlockRegion((s), (a), (b), (c)))
#define IStream_Stat(s, a, b) ((s)->lpVtbl->Stat((s), (a), (b)))
#define IStream_Clone(s, a) ((s)->lpVtbl->Clone((s), (a)))
#ifdef __cplusplus
}
#endif
#endif

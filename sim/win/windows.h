// Stand-in for the part of <windows.h> the library uses, served by a model of the operating system (win_stub.cpp).
#ifndef SIM_WINDOWS_H
#define SIM_WINDOWS_H
#define VOID void
#define WINAPI
#define TRUE 1
#define FALSE 0
typedef void * LPVOID; typedef unsigned int DWORD; typedef int BOOL; typedef DWORD * PDWORD; typedef unsigned long SIZE_T;
typedef VOID ( WINAPI * LPFIBER_START_ROUTINE)( LPVOID);
#define ERROR_ALREADY_FIBER 1280
#define ERROR_ALREADY_THREAD 1281
#define FIBER_FLAG_FLOAT_SWITCH 1
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 1
#define PAGE_READWRITE 4
#define PAGE_GUARD 0x100
typedef struct { DWORD dwPageSize; DWORD dwAllocationGranularity; } SYSTEM_INFO;
#ifdef __cplusplus
extern "C" {
#endif
LPVOID CreateFiber( SIZE_T, LPFIBER_START_ROUTINE, LPVOID);
LPVOID CreateFiberEx( SIZE_T, SIZE_T, DWORD, LPFIBER_START_ROUTINE, LPVOID);
VOID SwitchToFiber( LPVOID);
VOID DeleteFiber( LPVOID);
LPVOID ConvertThreadToFiber( LPVOID);
LPVOID ConvertThreadToFiberEx( LPVOID, DWORD);
BOOL ConvertFiberToThread( VOID);
BOOL IsThreadAFiber( VOID);
LPVOID GetCurrentFiber( VOID);
DWORD GetLastError( VOID);
VOID SetLastError( DWORD);
LPVOID VirtualAlloc( LPVOID, SIZE_T, DWORD, DWORD);
BOOL VirtualProtect( LPVOID, SIZE_T, DWORD, PDWORD);
BOOL VirtualFree( LPVOID, SIZE_T, DWORD);
VOID GetSystemInfo( SYSTEM_INFO *);
#ifdef __cplusplus
}
#endif
#endif

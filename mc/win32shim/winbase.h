#include <windows.h>
#include <objidl.h>

// names for the callbacks the contracts of the compiler install (an allocator's virtual functions)
extern "C" void* vc_alloc(void *self, int size);
extern "C" void vc_dealloc(void *self, void *ptr);
extern "C" void* vc_vtable(int i) { return i ? (void*)vc_alloc : (void*)vc_dealloc; }

// Built only when the harness of C08 does not build: is it the published descriptor size?
#include "PersistentStorage.h"
int main()
{
    static uint8_t mem[64];
    embedded::PersistentStorage s { embedded::BytesView(mem) };
    bool ok = s.set("a", 1) && s.get<int>("a");
#ifndef PROBE_CONTROL
    const volatile size_t* p = const_cast<const size_t*>(&embedded::PersistentStorage::DescriptorSize);
    ok = ok && *p > 0;
#endif
    return !ok;
}

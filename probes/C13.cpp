// Built only when the harness of C13 does not build: is it the frame buffer of some depth itself?
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/Canvas.h"
using namespace embedded;
template<int depth, int w = 16, int h = 3> int use()
{
    static SimpleFrameBuffer<w, h, depth> f;
    f.setColor(1);
    f.clear(0);
    f.drawPixel(1, 2, 1);
    f.drawPixel(1, 2);
    return f.getWidth() + f.getHeight() + int(f.getImage().size());
}
int main()
{
    int r = use<1>();
#ifndef PROBE_CONTROL
    r += use<2>() + use<4>() + use<8>() + use<16>() + use<24>() + use<32>();
    r += use<1, 40000, 2>() + use<4, 80000, 1>() + use<8, 70000, 1>() + use<8, 1, 70000>() + use<1, 1024, 600>() + use<16, 240, 320>();
#endif
    return r == 0;
}

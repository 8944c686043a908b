"""What each check builds and runs (see check)."""

GROUPS = {
    'core': {'src': ['*.cpp'], 'mine': ['*.cpp', '*.h']},
    'graphics': {'src': ['graphics/*.cpp'], 'mine': ['graphics/*.cpp', 'graphics/*.h'], 'includes': ['graphics']},
}

GROUPS['conv'] = {'src': ['gfx-font-converter/*.cpp'], 'mine': ['gfx-font-converter/*.cpp', 'gfx-font-converter/*.h'], 'includes': ['gfx-font-converter'],
                  'flags': ['-Dmain=gfx_converter_main'], 'pkg': ['freetype2']}

# unsigned long has 32 bits on the boards, but 64 here
GROUPS['arduino'] = {'src': ['arduino/*.cpp'], 'mine': ['arduino/*.cpp', 'arduino/*.h', 'PacketUart.h', 'SerialOut.h'], 'includes': ['@mocks/arduino', '@mocks', 'arduino'],
                     'sed': [(r'\b(?:unsigned\s+long(?:\s+int)?|long\s+unsigned(?:\s+int)?)\b(?!\s+long)', 'uint32_t')]}
GROUPS['esp'] = {'src': ['esp32-esp-idf/*.cpp'], 'mine': ['esp32-esp-idf/*.cpp', 'esp32-esp-idf/*.h', 'PacketUart.h', 'SerialOut.h'], 'includes': ['@mocks/esp', '@mocks', 'esp32-esp-idf']}

CHECKS = {}


def out(n, **kw):
    CHECKS['C%02d' % n] = dict(harness=['harness/out.cpp'], groups=['core'], defs=['-DPROP=%d' % n], fuzz={'quick': 8, 'thorough': 150}, **kw)


for n in (1, 2, 3, 4, 5):
    out(n)


def storage(n, **kw):
    CHECKS['C%02d' % n] = dict(harness=['harness/storage.cpp'], groups=['core'], defs=['-DPROP=%d' % n], fuzz={'quick': 8, 'thorough': 150}, **kw)


storage(6, san=['-fsanitize=alignment'])
for n in (7, 8, 9):
    storage(n)


def values(n, **kw):
    CHECKS['C%02d' % n] = dict(harness=['harness/values.cpp'], groups=['core'], defs=['-DPROP=%d' % n], **kw)


values(10, fuzz={'quick': 0, 'thorough': 60})
values(11)
values(12)
values(23)


def canvas(n, **kw):
    CHECKS['C%02d' % n] = dict(harness=['harness/canvas.cpp'], groups=['core', 'graphics'], defs=['-DPROP=%d' % n], **kw)


for n in range(13, 20):
    canvas(n)
for n in (20, 21, 22):
    canvas(n, variants=[{'name': 'signed-char'}, {'name': 'unsigned-char', 'defs': ['-DPROP=%d' % n, '-funsigned-char']}])


def conv(n, **kw):
    CHECKS['C%02d' % n] = dict(harness=['harness/conv.cpp'], groups=['core', 'graphics', 'conv'], defs=['-DPROP=%d' % n], **kw)


for n in range(24, 29):
    conv(n)


def backend(n, ticks=(1, 10), ard=True, extra=[], **kw):
    variants = []
    if ard:
        variants.append({'name': 'arduino', 'groups': ['core', 'arduino'], 'defs': ['-DPROP=%d' % n, '-DBACKEND_ARDUINO'] + extra})
    for t in ticks:
        variants.append({'name': 'esp-%dms' % t, 'groups': ['core', 'esp'], 'defs': ['-DPROP=%d' % n, '-DTICK_MS=%d' % t] + extra})
    CHECKS['C%02d' % n] = dict(harness=['harness/backend.cpp'], groups=[], variants=variants, **kw)


backend(29)
backend(30)
backend(31, ticks=(1,), extra=['-DDEBUG_SERIAL_OUT'])
backend(32, ticks=(1,))
backend(33)
backend(34, ticks=(1,))
backend(35, ticks=(1,), ard=False)
backend(36)

CHECKS['C37'] = dict(harness=['harness/heap.cpp'], groups=[], variants=[
    {'name': 'arduino', 'groups': ['core', 'graphics', 'arduino'], 'defs': ['-DBACKEND_ARDUINO']},
    {'name': 'esp', 'groups': ['core', 'graphics', 'esp'], 'defs': ['-DTICK_MS=1']}])

CHECKS['C38'] = dict(harness=['harness/indep.cpp'], groups=[], variants=[
    {'name': 'portable', 'groups': ['core', 'graphics', 'conv']},
    {'name': 'portable-threads', 'groups': ['core', 'graphics', 'conv'], 'tsan': True},
    {'name': 'arduino', 'groups': ['core', 'arduino'], 'defs': ['-DBACKEND_ARDUINO']},
    {'name': 'esp', 'groups': ['core', 'esp'], 'defs': ['-DBACKEND_ESP', '-DTICK_MS=1']},
    {'name': 'esp-threads', 'groups': ['core', 'esp'], 'defs': ['-DBACKEND_ESP', '-DTICK_MS=1', '-DWORLD_PER_THREAD'], 'tsan': True}])

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})

BO = ["BufferedOut.cpp", "BufferedOut.h"]
p("C01", "Formatted output never leaves its buffer",
  "For every sequence of insertions (text, characters, integers with any width and fill, floats with any precision, bytes, byte views) into a formatted-output object over a caller-supplied buffer of any size, nothing outside that buffer is written and the reported size never exceeds the capacity. No later insertion alters or removes characters that are already in the output.",
  ["inputs", "histories"], "all insertion sequences, all buffer sizes including 0 and nearly full buffers, all widths and precisions",
  "The tests use one 128-byte buffer that never fills up and never combine a width with a nearly full buffer.",
  BO, [("end-of-buffer checks in every insertion", "BufferedOut.cpp operator<<, addPadding, append, toChars; BufferedOut.h addChar")],
  ["the bytes around the buffer", "BufferedOut::size/capacity/asStringView"],
  [("pos", "write position", "BufferedOut.h"), ("dataBuf", "caller's buffer", "BufferedOut.h")])
p("C02", "Integers: exact decimal text, padded to at least the width, or nothing",
  "Inserting an integer of any supported type appends its exact decimal text, left-padded with the fill character when it is shorter than the pending width and never shortened when it is longer; a number whose (padded) text does not fit in the remaining space appends nothing at all. A width is used up by the integer it applies to and survives any text inserted before that integer, while the fill character stays until it is changed or the output is cleared.",
  ["inputs", "histories"], "all values of int, unsigned, long, unsigned long, long long, unsigned long long; all widths, fills and amounts of remaining room; any history before",
  "Six fixed numbers are tested, always with room to spare and always with a width larger than the number.",
  BO, [("std::to_chars into the remaining range", "BufferedOut.cpp operator<<(int...)"), ("padding", "BufferedOut.cpp addPadding/adjustPos")],
  ["BufferedOut::asStringView after each insertion"])
p("C03", "Floats print as truncated decimals that never misstate the value",
  "Inserting a finite float appends its sign, its integer part and, when a precision p > 0 is in force, a point and p decimals truncated toward zero, so the printed magnitude never exceeds the true one and is less than one unit of the last printed decimal below it (up to single-precision rounding). If the integer part does not fit nothing is appended, if only the decimals do not fit they are cut at the capacity, and the precision stays in force until changed or cleared.",
  ["inputs", "histories"], "all finite floats, precisions 0..60, all amounts of remaining room",
  "One value (123.456 with precision 2) is tested; negative fractions, tiny values and full buffers are not.",
  BO, [("digit loop", "BufferedOut.cpp toChars")], ["BufferedOut::asStringView"])
p("C04", "Text is cut at capacity; bytes print as whole upper-case hex pairs",
  "Inserting text (C string or string view, embedded NULs included in the latter) appends the longest prefix that fits, and inserting a character appends it exactly when there is room. Inserting a byte or a byte view appends two upper-case hexadecimal digits per byte, in order, only as whole pairs, for the longest prefix of bytes that fits.",
  ["inputs", "histories"], "all strings, bytes and byte views, at every amount of remaining room",
  "The tests insert one short string and three bytes into an empty 128-byte buffer.",
  BO, [("append / memcpy / nibble table", "BufferedOut.cpp operator<<(const char*), (string_view), (unsigned char), (ConstBytesView); BufferedOut.h addChar")],
  ["BufferedOut::asStringView"])
p("C05", "Output views, size and clear agree with the insertion history",
  "At every point of any history the text view, both byte views and the reported size describe the same bytes, namely everything accepted since construction or the last clear, starting at the buffer's first byte, for buffers of any size (also beyond 64 KiB). Clearing empties the output and restores the default formatting: no pending width, blank fill, precision 0; the reported capacity is always the size of the caller's buffer.",
  ["inputs", "histories"], "all interleavings of insertions, format changes and clears; buffer sizes from 0 to beyond 2^16",
  "Tests read the views once after one insertion; no test fills more than 128 bytes or formats after a clear.",
  BO, [("data/asStringView/size/clear", "BufferedOut.h")], ["BufferedOut::data, asStringView, size, capacity"])

PS = ["PersistentStorage.cpp", "PersistentStorage.h"]
p("C06", "Persistent storage behaves as a map keyed by name and value size",
  "For any history of stores and loads, loading a name as a type returns exactly the bytes most recently stored successfully under that name with a type of that size, and nothing when there is no such store. Values under different names, or under one name with different sizes, never affect each other, at any alignment of the region and for any alignment requirement of the types.",
  ["inputs", "histories"], "all sequences of set/get over short names (empty, prefixes of each other, 4 characters, longer) and types of many sizes and alignments",
  "Tests use a handful of keys and three types in one aligned 1 KiB array; overwrites after other records, prefix keys and misaligned records are not reached.",
  PS, [("linear record walk matching name and size", "PersistentStorage.h getIdx/set/get, operator==")],
  ["PersistentStorage::set/get"], [("free_head_", "end of the record chain", "PersistentStorage.h")])
p("C07", "Stored values survive re-attaching to the same memory",
  "A storage attached without initialisation to memory last written by another storage answers every load exactly as that one would, at every point of any history and any number of times over, and goes on accepting stores and overwrites. Attaching with initialisation zeroes the whole region and leaves the storage empty.",
  ["histories", "crash_points"], "all histories with a re-attach after any operation, including an exactly full region and a region with only a few bytes left",
  "One test re-attaches once after a single store in a mostly empty region.",
  PS, [("record chain scan", "PersistentStorage.cpp constructor")], ["a second PersistentStorage over the same bytes"])
p("C08", "A store fits exactly or is refused without any effect",
  "Storing a new value succeeds exactly when its name is at most four characters long, its record is not larger than a record can describe (65535 bytes) and its header of the published descriptor size plus the value fits in the unused part of the region; overwriting an existing value always succeeds and uses no further space. A refused store changes nothing, and a successful one changes only its own record's bytes; memory outside the region is never touched.",
  ["inputs", "histories"], "all fill levels including exactly full and one byte short, all region sizes from 0, name lengths 0..12, value sizes up to and beyond 64 KiB",
  "One test is one byte short for one type; no test checks that refusals have no effect, long names, or large values.",
  PS, [("space check before append", "PersistentStorage.h set")], ["return value of set", "region bytes before/after"])
p("C09", "Attaching to torn or arbitrary memory is safe and loses no finished record",
  "Attaching without initialisation to a region holding any bytes whatsoever terminates and neither it nor any later store or load touches memory outside the region; every later successful store is returned by a load. If the region is the result of a store that was interrupted after an arbitrary subset of its byte writes, every record finished before that store is still returned unchanged.",
  ["crash_points", "fault_sequences", "inputs"], "all region contents (random, corrupted valid chains, truncated, torn appends with any byte subset)",
  "No test attaches to anything but a cleanly written region.",
  PS, [("bounds checks during the chain scan", "PersistentStorage.cpp constructor"), ("append-only layout", "PersistentStorage.h set")],
  ["PersistentStorage::get on a storage attached to the damaged copy"])

p("C10", "Sub-views are exactly the requested elements clipped to the parent",
  "For any view and any offset and count, however large, a sub-view holds exactly the parent's elements from the offset up to the count or the parent's end, `first` the leading and `last` the trailing elements up to the count; nothing outside the parent is ever reachable through them, and slicing again composes accordingly. An offset at or past the end gives an empty view.",
  ["inputs", "histories"], "all views, element types, offsets and counts including values near the maximum of the size type, chains of slicing operations",
  "Tests slice one array of five ints with six argument pairs.",
  ["MemoryView.h"], [("subspan/first/last", "MemoryView.h")], ["begin/size of the returned views"])
p("C11", "View conversions preserve the bytes, order and extent",
  "A byte view of a view covers exactly the object representation of its elements (writes through the writable one are seen in the elements), and conversion to a const view or to a string view keeps start and length, embedded NULs included. Construction from an array, pointer and size, or pointer pair yields the same view, iteration visits each element once in order (reverse iteration in reverse), and indexing, front and back agree with it.",
  ["inputs"], "all element types and lengths, all contents",
  "Tests look at fixed arrays of three to five elements.",
  ["MemoryView.h"], [("constructors, as_bytes, as_writable_bytes, iterators, operator string_view", "MemoryView.h")], ["public interface of MemoryView"])
p("C12", "Byte-order conversion is the exact byte reversal for every value",
  "For every 16-bit and 32-bit value the conversion reverses its bytes, so applying it twice gives the value back; the float form returns exactly the float whose bits are the reversed input, whatever the bits. The in-place pair form reverses the bytes inside each 16-bit half and leaves the order of the halves alone.",
  ["inputs"], "all 2^16 and 2^32 values (16-bit exhaustively)",
  "Tests try two values each.",
  ["EndianConversion.h"], [("shift-and-mask expressions", "EndianConversion.h")], ["return values"])

FB = ["graphics/SimpleFrameBuffer.h", "graphics/FrameBufferBase.h"]
p("C13", "A frame buffer has the requested size and a pixel owns only its own bits",
  "For every supported colour depth (1, 2, 4, 8, 16, 24, 32) and every byte-aligned width, the reported width and height are the requested ones in pixels and the image is exactly width*height*depth/8 bytes. Drawing a pixel sets exactly that pixel's bits (rows top to bottom, leftmost pixel in the most significant bits, multi-byte colours most significant byte first) to the drawing colour and changes nothing else.",
  ["inputs", "configurations"], "all depths, many sizes, all positions and colours, any previous image content",
  "Only depth 1 is instantiated by the tests.",
  FB, [("bit masks and byte offsets per depth", "SimpleFrameBuffer.h drawPixel"), ("effectiveWidth/bufferSize", "SimpleFrameBuffer.h")],
  ["SimpleFrameBuffer::getImage/getWidth/getHeight"])
p("C14", "Colour state and clearing follow the documented model over any history",
  "Over any sequence of colour changes, clears and pixel writes, every pixel holds the colour of the last operation that covered it: clearing sets every pixel to its argument without changing the drawing colour, and a colour change affects only later pixels. A drawing colour, and above depth 1 any colour, is reduced to the bits of the depth, and before the first colour change it is the all-ones colour. A copy of a frame buffer starts with the same pixels and colour and is independent of the original.",
  ["histories", "configurations"], "all operation sequences, depths and colours, through the frame buffer and through a canvas",
  "Tests only clear to 0 and draw with the default colour.",
  FB + ["graphics/Canvas.h"], [("setColor/clear/selectedColor", "SimpleFrameBuffer.h")], ["SimpleFrameBuffer::getImage, Canvas::getImage"],
  [("selectedColor", "drawing colour", "SimpleFrameBuffer.h")])

CV = ["graphics/Canvas.cpp", "graphics/Canvas.h"]
p("C15", "Drawing is clipped: never off the surface, always the crop of the full picture",
  "Whatever operation is drawn at whatever coordinates, size and rotation, no pixel outside the frame buffer is ever addressed. What appears on the surface is exactly the part of the same drawing on a sufficiently larger surface that falls inside.",
  ["inputs", "histories"], "all drawing operations with coordinates far outside on every side, all rotations, surfaces from 1x1 up, non-square ones included",
  "The tests draw shapes that fit the surface completely.",
  CV, [("setIfVisible", "Canvas.h"), ("clamping", "Canvas.cpp drawFilledRectangle")], ["calls arriving at the frame buffer", "Canvas::getImage"])
p("C16", "Rotation turns the picture and nothing else",
  "For every rotation, the logical size is the physical one with width and height swapped for 90 and 270 degrees, and drawing pixels, horizontal, vertical and diagonal lines, rectangles, filled rectangles, circles or text produces exactly the picture of the unrotated drawing turned clockwise by that angle. Changing the rotation affects only later drawing.",
  ["inputs", "configurations"], "all shapes and positions (also partly off-surface), all four rotations, all surface shapes, mixed rotations in one history",
  "Tests compare one picture per rotation with stored images.",
  CV, [("transformCoords, getTransformMatrix, getShifts", "Canvas.cpp"), ("getSize", "Canvas.h")], ["Canvas::getImage, getSize"])
p("C17", "A line is the thin, gap-free line closest to the ideal segment",
  "A drawn line contains both end points and exactly one pixel for each step along its longer axis (no gap, nothing outside the end points), each at most half a pixel away from the ideal segment. Drawing it from the other end gives exactly the same pixels, in every rotation.",
  ["inputs"], "all end points (all octants, degenerate points, horizontal, vertical, diagonal, partly or fully off-surface), all rotations",
  "Tests draw about twenty lines.",
  CV, [("Bresenham loop", "Canvas.cpp drawLine")], ["pixels set on the frame buffer"])
p("C18", "Rectangles cover exactly their border, filled ones exactly their area",
  "Drawing a rectangle sets exactly the pixels of the one-pixel border of its width-by-height area, and a filled rectangle exactly all pixels of that area, clipped to the surface. A rectangle of zero or negative width or height draws nothing.",
  ["inputs"], "all rectangles (1-pixel, degenerate, larger than the surface, partly or fully outside), all rotations",
  "Tests draw seven rectangles, all well inside and at least 40 pixels wide.",
  CV + ["graphics/BaseGeometry.h"], [("drawRectangle/drawFilledRectangle and rectangle transformation", "Canvas.cpp"), ("corner helpers", "BaseGeometry.h")],
  ["pixels set on the frame buffer"])
p("C19", "Circles are closed, thin, symmetric and within half a pixel of the ideal",
  "For every radius >= 0 the outline contains the four extreme points, is symmetric about both axes and both diagonals through its centre, is connected without gaps and thin (no pixel has both a horizontal and a vertical neighbour), and every pixel lies within half a pixel of the ideal circle. The filled circle is exactly, row by row, everything between the outline's leftmost and rightmost pixels.",
  ["inputs"], "all radii 0..600 and centres on and off the surface, all rotations",
  "Tests draw two radii per orientation.",
  CV, [("Bresenham circle loop", "Canvas.cpp drawCircle")], ["pixels set on the frame buffer"])
EF = ["graphics/EmbeddedFont.cpp", "graphics/EmbeddedFont.h", "graphics/GFXFontsAdapter.h"]
p("C20", "Text is drawn as its glyphs' set bits at the accumulated pen position",
  "Drawing a character sets exactly the pixels of its glyph's one-bits, read row by row from the most significant bit without padding between rows, at the pen position plus the glyph's offset, leaves all other pixels alone, and returns the glyph's advance. Drawing a string equals drawing its characters one after another, each at the pen position advanced by the previous ones.",
  ["inputs"], "all well-formed fonts (generated), all byte values, all strings, positions and rotations",
  "Tests draw \"Hello World!\" with one font.",
  CV + EF, [("drawCharAt bit walk", "Canvas.cpp"), ("drawStringAt", "Canvas.h")], ["pixels set on the frame buffer", "return value of drawCharAt"])
p("C21", "Every character code selects its own glyph or the fallback",
  "For every well-formed font and each of the 256 codes, a code the font covers selects its own glyph (codes 0x7F to 0x9F are not stored, so 0xA0 directly follows 0x7E), with its size, offset, advance and exactly its own part of the bitmap data, ending where the next glyph's begins or at the end of the data. Any other code selects the font's first glyph; nothing outside the font's tables is ever read.",
  ["inputs", "configurations"], "all 256 codes for all generated 7-bit, partial-range and 8-bit fonts and the bundled font, on signed-char and unsigned-char platforms",
  "Tests use eight characters of one 7-bit font and never look at the bitmap view.",
  EF + ["graphics/EmbeddedFonts.cpp"], [("index computation and fallback", "EmbeddedFont.cpp getBitmap")], ["EmbeddedFont::getBitmap"])
p("C22", "Reported text bounds contain the drawn text",
  "For every font and non-empty string, drawing the string with the pen at the reported origin sets only pixels inside the rectangle from (0,0) of the reported size. The rectangle is no larger than the smallest one holding all glyph boxes and the pen positions on the baseline, and an empty string has an empty rectangle at the origin.",
  ["inputs"], "all generated fonts (overhanging and negative offsets included) and strings",
  "Text bounds are not tested at all.",
  EF, [("extent accumulation", "EmbeddedFont.cpp getTextBounds")], ["EmbeddedFont::getTextBounds against Canvas::drawStringAt"])
p("C23", "Geometry values obey vector algebra and corner identities",
  "For all points, sizes and rectangles without overflow, adding and subtracting sizes and moving points and rectangles is exact, component-wise and consistent between the in-place and value forms, scaling is component-wise, and equality and inequality are exact complements comparing both coordinates. A rectangle's corners are its first and last contained points, conversion between coordinate types keeps all four numbers, and a 2x2 matrix product is the exact linear map.",
  ["inputs"], "all int values free of overflow, also 64-bit coordinates",
  "One example per operator.",
  ["graphics/BaseGeometry.h"], [("operators", "BaseGeometry.h")], ["return values"])

GC = ["gfx-font-converter/main.cpp", "gfx-font-converter/BitStream.h", "gfx-font-converter/FreeTypeFace.cpp", "gfx-font-converter/FreeTypeGlyph.cpp"]
p("C24", "Bit packing writes every bit once, in order, zero-padded at flush",
  "For any sequence of bits, bytes and flushes, the packed output is exactly the concatenation of all bits, most significant first (a byte contributing its eight bits wherever it falls), with zero bits added up to the next byte boundary at each flush and nowhere else. Flushing on a byte boundary writes nothing.",
  ["inputs", "histories"], "all interleavings of bit writes, byte writes and flushes at all bit positions",
  "The converter has no tests.",
  ["gfx-font-converter/BitStream.h"], [("buffer/bitCount", "BitStream.h")], ["bytes arriving at the underlying stream"])
p("C25", "Converted binary fonts reproduce the source glyphs exactly",
  "For every source font, size and single-byte code page whose glyphs fit the format, the binary files written by the converter, loaded into the library's font object, give for each code of the charset exactly the source font's monochrome glyph for the corresponding Unicode character: same pixels, box, position and advance. Codes the code page or the font does not define get the source font's default glyph, and the same input always gives the same files.",
  ["inputs", "configurations"], "all generated source fonts (random glyph sizes, empty glyphs, missing glyphs, maximal boxes), ASCII and single-byte code pages",
  "The converter has no tests.",
  GC + ["graphics/GFXFontsAdapter.h"], [("glyph loop and binary writer", "gfx-font-converter/main.cpp main")], ["the two output files", "EmbeddedFont + Canvas over them"])
p("C26", "The generated C++ header describes the same font as the binary output",
  "For every font, size and charset, the header the converter writes contains the same bitmap bytes, glyph table (with the same offsets), first and last code as the binary output plus the font's line height, in declaration order usable by the library's font template. It is well-formed C++ whatever the font file is called: identifiers are valid and consistent between the three definitions, and every comment stays within its line.",
  ["inputs", "configurations"], "all generated fonts, sizes, charsets and font file names (blanks, punctuation, leading digits)",
  "The converter has no tests.",
  GC + ["graphics/EmbeddedFonts.cpp", "BufferedOut.cpp"], [("HexStringStream/TextGlyphStream/writeHeaderFile", "gfx-font-converter/main.cpp")], ["the generated header, parsed and compiled"])
p("C27", "The converter never reports success for an unusable result",
  "If a glyph box, offset, advance or the total bitmap size does not fit the output format, or an output file cannot be opened or written completely, or the font, code page or a numeric argument is not usable, the converter ends with a non-zero status and a message instead of crashing. Whenever it ends with status zero the output is complete and faithful.",
  ["inputs", "fault_sequences"], "all generated fonts around the format limits (255-pixel boxes, offsets -128..127, 65535 bitmap bytes), write failures at any byte, malformed arguments",
  "The converter has no tests.",
  GC + ["gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/FreeTypeLibrary.cpp"], [("exception to exit status", "gfx-font-converter/main.cpp main"), ("argument parsing", "FontConverterConfig.cpp")], ["exit status and files"])
p("C28", "Code-page conversion maps each byte independently of what came before",
  "For every single-byte code page, converting a byte gives exactly the Unicode character that code page assigns to it (as code point and as UTF-8 text), whatever bytes, valid or undefined, were converted before with the same converter. Undefined bytes give the empty result, and an unknown code page is reported as an error.",
  ["inputs", "histories"], "all single-byte code pages known to the platform, all bytes, all orders",
  "The converter has no tests.",
  ["gfx-font-converter/EncodingConverter.cpp", "gfx-font-converter/EncodingConverter.h"], [("iconv descriptor state", "EncodingConverter.cpp convert/convertRaw")], ["convert/convertRaw results"])

UA = ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "PacketUart.h"]
p("C29", "Packet reception returns exactly the received bytes of one packet",
  "On both back ends and for any arrival pattern, every receive call returns at most the buffer size and the bytes it returns are exactly consecutive bytes of the incoming stream, none invented, lost, reordered or written outside the buffer: the next bytes (plain receive), the next bytes up to and including the first end byte (receive-until), or, after discarding everything before the first start byte, the bytes from it up to and including the next end byte (receive-between, which needs room for two bytes and otherwise returns nothing). A call with a timeout leaves no byte behind that was there from its start while there is room, time and no end byte. Bytes after the returned ones stay available for the next call, and a send transmits exactly the given bytes and reports how many; device errors count as zero bytes.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, arrival schedules, buffer sizes (0, 1, 2, exact fit, too small), markers (equal ones too), injected device errors",
  "The platform code is not even compiled by the project's tests.",
  UA, [("byte loops and marker checks", "PacketUart.cpp of both back ends")], ["return value, buffer, remaining stream of a simulated UART"])
p("C30", "Receive timeouts hold whatever the uptime and the noise",
  "On both back ends a receive call with a positive timeout returns within its timeout (plus one scheduler tick) of the later of its start and the last byte it accepted, even when unwanted bytes keep arriving before a start byte. A packet whose bytes all arrive before the timeout of the call (less one tick and scheduling latency) has run out is delivered complete, including when the millisecond counter wraps around during the call. A UART device's own timeout setting (Arduino) is the same after a receive or send as before it, and bounds the wait for each byte of a marked packet when the call is given no timeout (0).",
  ["schedules", "histories"], "all start times including just before the 32-bit millisecond wrap, arrival schedules, timeouts, tick periods",
  "The platform code is not compiled by the tests, and the wrap needs 49 days of uptime.",
  UA + ["Delays.h"], [("deadline arithmetic", "PacketUart.cpp of both back ends")], ["simulated clock and UART"])
p("C31", "Serial log output transmits exactly what was formatted",
  "On both back ends, for any sequence of insertions and end / end-of-line markers, the bytes sent over the UART are, in order, exactly the formatted text of each message as the formatted-output rules give it for that buffer size, followed for end-of-line by one newline that is sent even when the buffer is exactly full. Each message starts with empty output and default formatting, nothing is sent before a marker, and nothing is sent twice; the library's debug output behaves in the same way on the platform's first UART.",
  ["histories"], "all insertion/marker sequences, all buffer sizes from 1",
  "Not compiled by the tests.",
  ["SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp", "Debug.h", "arduino/SerialDebug.cpp", "esp32-esp-idf/SerialDebug.cpp"], [("flush", "SerialOut.cpp of both back ends"), ("endl handling", "SerialOut.h")], ["bytes written to a simulated UART"])
p("C32", "SPI transfers move exactly the requested bytes",
  "On both back ends a send, receive or full-duplex transfer of any length clocks exactly that many bytes in order, each once, with the caller's bytes (0xFF filler or driver default when only receiving) out and the device's bytes stored in order, and touches nothing outside the buffers. No single driver transaction exceeds the driver's limit, bus transactions are properly opened and closed, and a driver failure makes the transfer report failure and stop.",
  ["inputs", "fault_sequences"], "all lengths 0..65535 incl. multiples of 4 and of the chunk limit +-1, all modes, failure at any chunk",
  "Not compiled by the tests.",
  ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "SpiDevice.h"], [("chunking", "SpiBus.cpp of both back ends")], ["simulated SPI driver"])
p("C33", "I2C transfers succeed exactly when every byte was transferred",
  "On both back ends a send or receive returns true exactly when the device acknowledged and all requested bytes were transferred to or from the device's own address, in order; bytes received are stored in order and nothing outside the buffer is written. The combined send-then-receive performs the receive only after a successful send, probing an address reports whether a device answers there and leaves no resources behind, and resetting the bus sends exactly the general-call reset (byte 06 to address 0). Every operation leaves the bus released, and on ESP no transfer is given a longer time limit than the device's own.",
  ["inputs", "fault_sequences"], "all addresses, lengths, payloads, driver buffer limits, injected NACKs, short transfers and errors",
  "Not compiled by the tests.",
  ["I2CDevice.h", "arduino/I2CDevice.cpp", "arduino/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp", "esp32-esp-idf/I2CBus.cpp"], [("result combination", "I2CDevice.cpp of both back ends; I2CDevice.h sendThenReceive")], ["simulated I2C driver"])
p("C34", "Pins and peripherals are driven and configured exactly as requested",
  "On both back ends every pin operation acts on its own pin only, with the requested level, direction and pull mode (invalid pins are refused on ESP), a chip selector holds its pin low exactly during its lifetime in any nesting of selectors of different pins, and reading a pin returns its level. UART, I2C and SPI initialisation passes the requested pins, speed and framing to the driver unchanged, claims no pin that was not given, and reports driver errors as failure.",
  ["inputs", "histories", "fault_sequences"], "all pins 0..255, directions, pull modes, nesting of selectors (of different pins), configuration values, driver failures",
  "Not compiled by the tests.",
  ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/SpiBus.cpp", "arduino/SpiBus.h"], [("driver calls", "platform GpioDigitalPin.cpp, SimpleUartDevice.cpp, I2CBus.cpp, SpiBus.cpp")], ["simulated drivers"])
p("C35", "ESP driver resources are released exactly once and can be used again",
  "Over any history of initialisation, transfer, release and destruction of an SPI bus, with any driver call failing, a release that reports success leaves neither device nor bus allocated, nothing is released twice or used after release, a failed initialisation leaves nothing allocated, and destruction releases everything the driver lets it release. Analog reads of any valid pin can be repeated any number of times, each returning the converter's current value (-1 for a pin without a converter channel or a driver error), and leave no converter unit allocated.",
  ["histories", "fault_sequences"], "all operation sequences with driver failures injected at any call",
  "Not compiled by the tests.",
  ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/AnalogPin.cpp"], [("release/init", "SpiBus.cpp"), ("singleReadADC", "AnalogPin.cpp")], ["simulated drivers' allocation state"])
p("C36", "Waiting and sleeping take at least the requested time and never overshoot",
  "On ESP a microsecond delay and a light sleep return no earlier than requested, and never program a wake-up beyond the requested end, at any uptime (counter wrap included) and with sleep requests failing at any point; deep sleep programs exactly the requested time. The tick functions of both back ends report the platform clock in the stated unit, and the delay functions pass on the requested duration.",
  ["schedules", "fault_sequences"], "all durations, start times including just before counter wrap, clock advances between any two clock reads, failing sleep calls",
  "Not compiled by the tests.",
  ["esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SleepFunctions.h", "arduino/Delays.cpp", "Delays.h"], [("deadline loops", "Delays.cpp, SleepFunctions.h")], ["simulated clock"])
p("C37", "The library never uses the heap",
  "No operation of the library proper - formatted output, persistent storage (with plain values), views, frame buffer, canvas, fonts, and the serial, SPI, I2C and pin classes of both back ends - allocates heap memory, for any arguments and any history.",
  ["inputs", "histories"], "all operation sequences across all components",
  "No test observes allocation.",
  BO + PS + CV + EF + FB + ["MemoryView.h", "SerialOut.h", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SpiBus.cpp"], [("fixed-size, caller-provided memory throughout", "all library headers")], ["allocation hooks around every library call"])
p("C38", "Objects do not influence each other, on one thread or on several",
  "However the operations on several objects are interleaved, every object gives exactly the results that its own operations give when it is used alone: formatted outputs, storages over different memory, views, frame buffers with their canvases, fonts, bit packers, code-page converters, and packet UARTs, serial outputs, SPI buses, I2C devices and pins on different devices. Objects of the library proper (not the converter) that are each used by one thread share no memory that any of them writes; a font, which never changes, may be used by all.",
  ["histories", "schedules"], "all histories of several objects and all interleavings of their operations, also on threads of their own",
  "The tests use one object at a time and a single thread.",
  BO + PS + CV + EF + FB + ["MemoryView.h", "SerialOut.h", "gfx-font-converter/BitStream.h", "gfx-font-converter/EncodingConverter.cpp", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/AnalogPin.cpp"],
  [("all state is in the objects and the memory given to them", "all library headers and sources (no static variables)")], ["results of the same history alone", "ThreadSanitizer"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))

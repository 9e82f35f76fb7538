// libFuzzer driver for the native chunk readers; the first byte selects the reader
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <exception>
#define fprintf(...) 0
#include CORE_SOURCE

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 2)
        return 0;
    // an exact copy: reading one byte further is noticed
    size_t n = size - 1;
    uint8_t *copy = (uint8_t *)malloc(n);
    memcpy(copy, data + 1, n);
    Buffer f = Buffer();
    f.root = copy;
    f.ptr = copy;
    f.end = copy + n - 1;
    f.error_message = "";
    try {
        if (data[0] % 14 == 13) {
            std::vector<AttrData> d;
            read_attributes(&f, d);
        } else {
            Properties p;
            switch (data[0] % 14) {
                case 0: read_composition(&f, &p); break;
                case 1: read_trackeffect(&f, &p); break;
                case 2: read_media_descriptor(&f, &p); break;
                case 3: read_did_descriptor(&f, &p); break;
                case 4: read_cdci_descriptor(&f, &p); break;
                case 5: read_selector(&f, &p); break;
                case 6: read_sequence(&f, &p); break;
                case 7: read_filler(&f, &p); break;
                case 8: read_sourceclip(&f, &p); break;
                case 9: read_paramclip(&f, &p); break;
                case 10: read_paramitem(&f, &p); break;
                case 11: read_trackref(&f, &p); break;
                case 12: read_effectparamlist(&f, &p); break;
            }
        }
    } catch (std::exception &e) {
        // an ordinary error of the extension
    }
    if (f.ptr < f.root || f.ptr > f.end + 1)
        abort();
    free(copy);
    return 0;
}

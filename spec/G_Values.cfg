CONSTANTS Alphabet = {0, 65, 127, 128, 143, 144, 159, 160, 191, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245}
 Years = {0, 1, 2, 3, 4, 5, 96, 100, 104, 200, 300, 399, 400, 401, 500, 800, 1582, 1600, 1700, 1752, 1800, 1899, 1900, 1901, 1970, 1996, 1999, 2000, 2001, 2004, 2022, 2023, 2024, 2038, 2100, 2200, 2400, 9999, 10000, 16384, 32767, 32768, 32800, 50000, 65499, 65500, 65532, 65533, 65534, 65535}

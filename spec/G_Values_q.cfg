CONSTANTS Alphabet = {0, 65, 128, 143, 159, 160, 191, 194, 224, 237, 240, 244}
 Years = {0, 1, 4, 100, 200, 400, 1900, 1996, 2000, 2023, 2024, 2100, 9999, 10000, 32767, 32768, 65500, 65532, 65535}

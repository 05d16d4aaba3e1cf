import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two live strings, texts up to 34 bytes from a fixed alphabet; capacity growth policy of liballoc",
                      "AddressSanitizer reports every bad access made by C++ code and libc; allocation counters report leaks"]
    vk.rt_check(ck, "c01")

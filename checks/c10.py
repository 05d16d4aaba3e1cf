import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two slots per language and 22 kinds of owned value; C++ exceptions and Rust errors themselves own ledger objects",
                      "AddressSanitizer, a ledger of live objects and allocation counters observe leaks, double frees and use after free"]
    vk.rt_check(ck, "c10", quick_budget=40_000_000, bfs_q=3000, thorough_budget=3_000_000_000, secs_t=1500, bfs_t=3000)

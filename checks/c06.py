import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two strings of at most 60 bytes per history; nesting of let_cxx_string! to the explored depth",
                      "AddressSanitizer and allocation counters observe lifetime errors"]
    vk.rt_check(ck, "c06", quick_budget=600_000, bfs_q=10000, thorough_budget=6_000_000, bfs_t=60_000)

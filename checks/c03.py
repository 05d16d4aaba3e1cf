import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two live vectors of at most 5 elements with 3 values per element type",
                      "AddressSanitizer, an object ledger and allocation counters observe lifetime errors"]
    vk.rt_check(ck, "c03", quick_budget=70_000, bfs_q=1500, thorough_budget=3_000_000, bfs_t=60_000)

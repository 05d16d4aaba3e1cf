import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two boxes and one released pointer per history, 8 payload kinds; three errors and one exception_ptr, 4 messages",
                      "AddressSanitizer, object ledgers and allocation counters observe lifetime errors"]
    vk.rt_check(ck, "c05", quick_budget=70_000, bfs_q=1500, thorough_budget=3_000_000, bfs_t=60_000)

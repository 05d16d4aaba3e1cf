import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["sequences of 0, 3, 4 and 5 elements; 14 element kinds of sizes 0 to 48"]
    vk.rt_check(ck, "c04", quick_budget=10_000, bfs_q=2000, thorough_budget=3_000_000, bfs_t=200_000)

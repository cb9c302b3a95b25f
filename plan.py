# property -> build variants of the harness that its scenarios run in
PLAN = {
    "C01": ["default"],
    "C02": ["default"],
    "C03": ["default"],
    "C04": ["default"],
    "C05": ["sched"],
    "C06": ["sched"],
    "C07": ["sched", "index"],
    "C08": ["nodes"],
    "C09": ["sched"],
    "C10": ["default"],
    "C11": ["default"],
    "C12": ["default"],
    "C13": ["default", "nodes", "small"],
    "C14": ["default"],
    "C15": ["plain", "index", "serial", "squared"],
    "C16": ["py"],
    "C17": ["default"],
    "C18": ["default"],
    "C19": ["distance"],
}
BUDGET = {"C13": 100, "C16": 100, "C17": 100, "C18": 90}

"""What each check runs."""
PLAN = {
    "C01": {"design": ["MC01"], "gen": ["GenValues"]},
    "C02": {"design": ["MC02"], "gen": ["GenValues"]},
    "C03": {"design": ["MC03"], "gen": ["GenValues"]},
    "C04": {"design": ["MC04"], "gen": ["GenValues"]},
    "C05": {"design": ["MC05"], "gen": []},
    "C06": {"design": ["MC06"], "gen": ["GenNgrams"]},
    "C07": {"design": ["MC07"], "gen": []},
    "C08": {"design": ["MC08"], "gen": ["GenTables"]},
    "C09": {"design": ["MC09"], "gen": ["GenWords"]},
    "C10": {"design": ["MC10"], "gen": ["GenValues"]},
    "C11": {"design": ["MC11"], "gen": ["GenNew", "GenAssign",
            {"module": "GenSession", "cfg": "GenSession11", "name": "Sessions", "depth": 4000,
             "num": {"quick": 4, "thorough": 30}}]},
    "C12": {"design": ["MC12"], "gen": [
            {"module": "GenSession", "cfg": "GenSession12", "name": "Sessions", "depth": 8000,
             "num": {"quick": 6, "thorough": 40}}]},
    "C13": {"design": ["MC13"], "gen": []},
    "C14": {"design": ["MC14"], "gen": []},
    "C15": {"design": ["MC15"], "gen": ["GenSlices"]},
    "C16": {"design": ["MC16"], "gen": ["GenSlices"]},
    "C17": {"design": ["MC17"], "gen": []},
    "C18": {"design": ["MC18"], "gen": []},
    "C19": {"design": ["MC19"], "gen": []},
    "C20": {"design": ["MC20"], "gen": []},
    "C21": {"design": ["MC21"], "gen": ["GenUtf8"]},
    "C22": {"design": ["MC22"], "gen": []},
    "C23": {"design": ["MC23"], "gen": []},
    "C24": {"design": ["MC24"], "gen": []},
    "C25": {"design": ["MC25", "MC25b"], "gen": [
            {"module": "GenSession", "cfg": "GenSession25", "name": "Sessions", "depth": 8000,
             "num": {"quick": 6, "thorough": 40}}]},
    "C26": {"design": ["MC26"], "gen": [
            {"module": "GenCopy", "name": "Copies", "depth": 4000, "num": {"quick": 3, "thorough": 40}}]},
    "C27": {"design": ["MC27"], "gen": []},
}

# drivers at work side by side, each with its own share of the cases
SHARDS = {"quick": 4, "thorough": 6}

# how many times the drivers' base number of random cases the quick tier runs
SCALE = {"C01": 6, "C02": 6, "C03": 6, "C04": 4, "C05": 2, "C06": 4, "C07": 16, "C08": 8, "C09": 8,
         "C10": 6, "C11": 2, "C12": 2, "C13": 8, "C14": 8, "C15": 6, "C16": 6, "C17": 8, "C18": 6,
         "C19": 2, "C20": 2, "C21": 2, "C22": 4, "C23": 4, "C24": 4, "C25": 2, "C26": 4, "C27": 12}

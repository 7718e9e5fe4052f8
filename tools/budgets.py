"""Case budgets per property: cases per shard for each tier."""

ASSUMPTIONS = {
    "*": [
        "the table backend behaves like pokertable v0.1.83 as modelled in harness/fake.go (scripted hands, same reports and return values)",
        "virtual time (testing/synctest): timers fire exactly on time",
        "player operations are issued one after another; timers and table reports interleave with them",
    ],
    "C25": ["table states are internally consistent (every index of the hand points at a seated player)"],
    "C26": ["virtual time (testing/synctest): timers fire exactly on time", "states, manual actions and mode switches are issued one after another; a new state may be reported from within an action"],
    "C27": ["virtual time (testing/synctest)", "the game engine is the pinned pokerface module"],
    "C28": ["virtual time (testing/synctest); the table module does not hold a table's lock while it waits between two attempts to open a hand",
            "the host forwards OnAutoGameOpenEnd and reopens hands the table module forgets; add-ons and top-ups are made between hands (see known findings)",
            "player operations are issued one after another"],
    "C30": ["virtual time (testing/synctest): timers fire exactly on time", "the backend is a stand-in that records what it is asked"],
    "C31": ["no assumption beyond the Go runtime"],
    "C01": ["virtual time (testing/synctest): timers fire exactly on time"],
}

N = 2500
T = 60000
BUDGET = {
    "C01": {"quick": 6000, "thorough": 150000},
    "C02": {"quick": N, "thorough": T},
    "C03": {"quick": N, "thorough": T},
    "C04": {"quick": N, "thorough": T},
    "C05": {"quick": N, "thorough": T},
    "C06": {"quick": N, "thorough": T},
    "C07": {"quick": N, "thorough": T},
    "C08": {"quick": N, "thorough": T},
    "C09": {"quick": N, "thorough": T},
    "C10": {"quick": N, "thorough": T},
    "C11": {"quick": N, "thorough": T},
    "C12": {"quick": N, "thorough": T},
    "C13": {"quick": N, "thorough": T},
    "C14": {"quick": N, "thorough": T},
    "C15": {"quick": N, "thorough": T},
    "C16": {"quick": N, "thorough": T},
    "C17": {"quick": N, "thorough": T},
    "C18": {"quick": N, "thorough": T},
    "C19": {"quick": N, "thorough": T},
    "C20": {"quick": N, "thorough": T},
    "C21": {"quick": 1200, "thorough": 30000},
    "C22": {"quick": 1200, "thorough": 24000},
    "C23": {"quick": 3500, "thorough": 75000, "yields": True},
    "C24": {"quick": N, "thorough": T},
    "C25": {"quick": 3000, "thorough": 90000},
    "C26": {"quick": 8000, "thorough": 240000},
    "C27": {"quick": 2500, "thorough": 60000, "retries": 40, "need": 1},
    # cards and seats are dealt at random by the table and game modules
    "C28": {"quick": 150, "thorough": 300, "rounds": {"thorough": 12}, "relax": True, "retries": 40, "need": 1},
    "C29": {"quick": 1800, "thorough": 40000},
    "C30": {"quick": 12000, "thorough": 400000},
    "C31": {"quick": 8000, "thorough": 250000},
}
for _b in BUDGET.values():
    _b.setdefault("cap", {"quick": 120, "thorough": 700})

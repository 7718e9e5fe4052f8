"""Writes known_findings.json."""
import json, os
FIXED = [
    ("C01", "f97546f", "starting a blind system without options crashed (nil dereference)"),
    ("C01", "bb77aab", "an initial level missing from the level list crashed the blind system's start"),
    ("C01", "5381cfe", "levels after an unlimited level were scheduled at once"),
    ("C01", "290bfb0", "a zero-length level shifted the schedule of the levels after it"),
    ("C09", "f451535", "a settled hand reported again during a player operation blocked the competition for good"),
    ("C17", "c21c1c7", "a scheduled or manually started CT/cash competition never opened its table"),
    ("C03", "fe071a8", "a competition that had ended could be started"),
    ("C13", "9fd307d", "counters and ranks were stale after a refund"),
    ("C05", "d0b9614", "a cash top-up replaced the player's chips instead of adding to them"),
    ("C23", "97a4e02", "concurrent buy-ins, add-ons and refunds entered a player twice, passed limits or hit another player"),
    ("C06", "6d40bbe", "add-ons were accepted for players without chips and when the competition was not running"),
    ("C24", "ca7c4c5", "an add-on the table refused was booked all the same"),
    ("C24", "3bbe974", "a refund whose seat release failed was booked all the same"),
    ("C19", "a0bc8d7", "a quit whose seat release failed reported success"),
    ("C18", "4b728d4", "tables resumed during the second of two consecutive breaks"),
    ("C11", "7827b5f", "players waiting for a re-buy were missing from the final ranking"),
    ("C03", "3499809", "a competition starting past its final buy-in level never stopped its buy-in"),
    ("C16", "9d347e0", "advancement never ran when buy-in was stopped from the start"),
    ("C13", "b28ab0e", "knockout and settlement announcements carried stale counters"),
    ("C14", "f10fb7a", "tables were filled to nine seats whatever the configured limit"),
    ("C28", "7b322ec", "the native backend never opened the first hand of a table"),
    ("C16", "72ba806", "advancement counted a paused table twice and missed closed ones"),
    ("C15", "66c8c93", "a tournament ended with two players left or never ended with one"),
    ("C14", "432f556", "the player whose buy-in completed the minimum was never seated"),
    ("C24", "7cafed8", "failures to seat players were dropped silently"),
    ("C25", "3d26290", "states with a table status other than playing or settled showed everybody's cards and the deck"),
    ("C25", "d5fd55c", "the handed-out state was shared with the runner's own: a listener's edits changed what the runner played"),
    ("C26", "e116792", "a pending move timing out after the table's hand was gone crashed the player runner"),
    ("C26", "901b0c0", "a manual action cancelled the next move's timer when the table answered with that move first"),
    ("C26", "3a3abd5", "auto mode switched on while a move was pending was lost at the time-out"),
    ("C27", "10ca06e", "the heads-up dealer paid zero instead of the dealer blind when there is no small blind"),
    ("C26", "ffe1d2d", "a call that completes the big blind or goes all in was announced with the wrong amount"),
    ("C26", "533c4bf", "calling or going all in before any table state crashed"),
    ("C27", "8a9f2d2", "a bot's bet of its whole stack was not announced"),
    ("C18", "7298b28", "a table whose first hand fell into a break never resumed"),
    ("C07", "5464acf", "a refunded cash player kept his seat and went on playing"),
    ("C20", "4c32628", "a cash-out naming a table that does not exist paid the player and left him seated at his table"),
    ("C24", "a60d19b", "after a failed seat release a busted player's place in the seating queue was retried for ever: the next buy-in never returned"),
    ("C27", "3251ed4", "a bot that had moved at once for a newer state later moved for the outdated one as well"),
]
KNOWN = [
    {"kind": "known", "property": "C14", "scenario": "regulator-oversized-table",
     "what": "eight players waiting, three-seat tables, balancing minimum three, then start: the balancing library (pokerface/regulator) requests a table for five players (any balancing minimum above (2*limit+1)/3 can do this)"},
    {"kind": "known", "property": "C22", "scenario": "shared-native-backend",
     "what": "two competitions created on one shared native table backend: creating the second replaces the first one's table callbacks, so the first never hears of its tables again"},
    {"kind": "known", "property": "C28", "scenario": "addon-in-hand",
     "what": "an add-on (or a cash top-up) accepted while the player plays a hand on the bundled backend: the table module settles the hand with the stack the player had at its start, and the added chips are lost"},
    {"kind": "known", "property": "C24", "scenario": "seating-outage",
     "what": "a running MTT, a late buy-in, and a backend that keeps refusing to change the table's players: the balancing library (pokerface/regulator) repeats the refused seating for ever and the buy-in never returns"},
    {"kind": "known", "property": "C24", "scenario": "stale-seat-rebuy",
     "what": "an MTT whose backend fails to take a busted player off his table: the player buys in again while waiting for a seat, and the next hand settled at the old table takes the new chips away"},
]
ids = {json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))}
assert all(p in ids for p, _, _ in FIXED)
json.dump({"findings": KNOWN, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)

REGISTRY = {
    "X01": ("tls", "x01"), "X02": ("tls", "x02"),
    "D01": ("db", "d01"), "D02": ("db", "d02"), "D03": ("db", "d03"),
    "F01": ("file", "f01"),
    "S01": ("server", "s01"),
    "S02": ("timed", "s02"),
    "C01": ("client", "c01"),
    "C03": ("proxy", "c03"),
    "C04": ("url", "c04"),
    "J01": ("json", "j01"), "J02": ("json", "j02"),
    "K04": ("token", "k04"), "K01": ("containers", "k01"), "K02": ("containers", "k02"), "K03": ("containers", "k03"),
    "H01": ("http", "h01"), "H02": ("http", "h02"), "H05": ("http", "h05"), "H08": ("http", "h08"),
    "H03": ("session", "h03"), "H04": ("session", "h04"), "H10": ("session", "h10"),
    "R01": ("session", "r01"), "R02": ("session", "r02"), "R03": ("session", "r03"),
    "H06": ("writer", "h06"), "H07": ("writer", "h07"), "H09": ("writer", "h09"),
    **{p: ("coro", p.lower()) for p in ("L01", "L02", "L03", "L04", "L05", "L06")},
    **{p: ("pool", p.lower()) for p in ("T01", "T02", "T03")},
    "W01": ("ws", "w01"), "W02": ("ws", "w02"), "W03": ("ws", "w03"),
}

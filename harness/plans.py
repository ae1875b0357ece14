"""Which specification modules decide which property."""
PLANS = {
    "C01": [("zipconn", {})],
    "C02": [("zipconn", {})],
    "C03": [("zipconn", {})],
    "C04": [("zipconn", {})],
    "C07": [("zipconn", {}), ("gateway", {})],
    "C08": [("gateway", {})],
    "C09": [("gateway", {})],
    "C10": [("gateway", {})],
    "C11": [("gateway", {})],
    "C12": [("app", {})],
    "C13": [("app", {})],
    **{"C%d" % n: [("node", {})] for n in range(14, 23)},
    "C23": [("storage", {})],
    "C24": [("storage", {})],
    "C25": [("mailbox", {})],
    "C26": [("mailbox", {})],
    "C27": [("mailbox", {})],
    "C28": [("wire", {})],
    "C29": [("wire", {})],
    "C30": [("wire", {})],
    "C34": [("wire", {})],
    "C36": [("wire", {})],
    "C37": [("gateway", {})],
    "C33": [("system", {})],
    "C35": [("app", {})],
    "C31": [("listeners", {})],
    "C32": [("transport", {})],
    "C05": [("waiter", {}), ("gateway", {}), ("node", {})],
    "C06": [("waiter", {}), ("gateway", {}), ("node", {})],
}

SPECS = {"zipconn": "ZipConn", "waiter": "Waiter", "wire": "Wire", "gateway": "Gateway", "app": "App", "node": "Node", "mailbox": "Mailbox", "storage": "Storage", "listeners": "Listeners", "transport": "Transport", "system": "System"}
NOTE = "exhaustive on the bounded design model; on the code: every transition of the model's graph plus seeded histories, each judged by the specification"
NOTES = {}
NA = {}

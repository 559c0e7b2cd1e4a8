"""Write the table of planted bugs into DESIGN.md (between the markers), from /verif/seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- planted bugs -->", "<!-- end of planted bugs -->"


def main():
    rows = []
    base = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, "meta.json"), encoding="utf-8") as fin:
            meta = json.load(fin)
        caught = meta.get("caught_by", meta["property"])
        rows.append(f"| {name} | {meta['property']} | {meta['what_it_breaks'].rstrip('.')} | {caught} |")
    path = os.path.join(HERE, "DESIGN.md")
    with open(path, encoding="utf-8") as fin:
        text = fin.read()
    head, rest = text.split(BEGIN)
    tail = rest.split(END)[1]
    table = "\n".join(["| id | property | what it breaks | caught by |", "|---|---|---|---|"] + rows)
    with open(path, "w", encoding="utf-8") as fout:
        fout.write(f"{head}{BEGIN}\n{table}\n{END}{tail}")


if __name__ == "__main__":
    main()

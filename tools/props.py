"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` regenerates both."""
import json
import os
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []
S = "src/corrct/"


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(
        dict(
            row=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]),
            ),
            technique=technique,
            note=note,
        )
    )


exec((HERE / "tools" / "props_data.py").read_text())

claimed = [p for p in P if (HERE / "checks" / (p["row"]["id"].lower() + ".py")).exists()]
(HERE / "properties.jsonl").write_text("".join(json.dumps(p["row"]) + "\n" for p in claimed))
man = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[
        dict(
            property=p["row"]["id"],
            quick_cmd=f"./check {p['row']['id']} --tier quick",
            thorough_cmd=f"./check {p['row']['id']} --tier thorough",
            technique=p["technique"],
            level="exploration",
            level_note=p["note"],
        )
        for p in claimed
    ],
    not_applicable=[],
)
(HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(claimed), "claimed of", len(P))

"""Source of properties.jsonl: run `python3 tools/props.py`."""
import json, os
P = []


def p(id, title, statement, files, mech, over=('inputs',), text=None,
      why=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text or 'every admissible input '
                        'within the documented domain'),
        why_tests_cant=why or 'The tests evaluate a few fixed numeric '
        'examples (most only write CSV files or compare against a handful of '
        'published values); a formula or branch that is wrong elsewhere in '
        'the input space passes them.',
        anchors=dict(files=files.split(), mechanism=[
            dict(name=n, where=w) for n, w in mech])))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'props_list.py')).read())

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in sorted(P, key=lambda q: q['id']):
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')

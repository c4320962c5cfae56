import json
T='contract-based deductive verification (Verus on functions extracted from /repo each run) plus replay of the same functions'
def P(id, title, statement, over, for_all, why, files, mech, note, obs=None, level='proof', tech=T):
    d=dict(id=id,title=title,statement=statement,over=over,for_all=for_all,why_tests_cant=why,files=files,mechanism=mech,level=level,level_note=note,technique=tech)
    if obs: d['observe_at']=obs
    import os
    os.makedirs(f'/verif/units/{id}',exist_ok=True)
    json.dump(d,open(f'/verif/units/{id}/prop.json','w'),indent=1,ensure_ascii=False)

import json,sys
def P(id,title,statement,over,qtext,why,files,mech,cmd=None,technique=None,note=None,state=None,observe=None,na=None):
    d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,
       'anchors':{'files':files,'mechanism':[{'name':a,'where':b} for a,b in mech]}}
    if state: d['anchors']['state']=[{'name':a,'meaning':b,'where':c} for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    if cmd: d['check']={'cmd':cmd,'technique':technique,'note':note}
    if na: d['not_applicable']=na
    json.dump(d,open('/verif/tools/props.d/%s.json'%id,'w'),indent=1,ensure_ascii=False)

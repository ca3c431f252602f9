#!/usr/bin/env python3
"""Simple mutants of the contract sources. gen.py -> JSON lines {id,file,line,old,new,op}"""
import re,json,sys,random
ROOT='/repo/contracts/sumtree-orderbook/src/'
FILES=['order.rs','tick.rs','tick_math.rs','query.rs','state.rs','sudo.rs','auth.rs','contract.rs','orderbook.rs','constants.rs',
       'sumtree/node.rs','sumtree/tree.rs','types/order.rs','types/orderbook.rs','types/tick.rs','types/coin.rs']
SWAPS=[(r' < ',[' <= ',' > ']),(r' <= ',[' < ']),(r' > ',[' >= ',' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),
 (r' && ',[' || ']),(r' \|\| ',[' && ']),(r'checked_add',['checked_sub']),(r'checked_sub',['checked_add','saturating_sub']),
 (r'checked_mul',['checked_div']),(r' \+ ',[' - ']),(r' - ',[' + ']),
 (r'\.min\(',['.max(']),(r'\.max\(',['.min(']),(r'Ascending',['Descending']),(r'Descending',['Ascending']),
 (r'OrderDirection::Bid',['OrderDirection::Ask']),(r'OrderDirection::Ask',['OrderDirection::Bid']),
 (r'RoundingDirection::Up',['RoundingDirection::Down']),(r'RoundingDirection::Down',['RoundingDirection::Up']),
 (r'\bquantity\b',['placed_quantity']),(r'placed_quantity',['quantity']),
 (r'effective_total_amount_swapped',['cumulative_total_value','last_tick_sync_etas','total_amount_of_liquidity','cumulative_realized_cancels']),
 (r'cumulative_total_value',['effective_total_amount_swapped','total_amount_of_liquidity']),
 (r'total_amount_of_liquidity',['cumulative_total_value','effective_total_amount_swapped']),
 (r'cumulative_realized_cancels',['last_tick_sync_etas']),
 (r'last_tick_sync_etas',['effective_total_amount_swapped','cumulative_total_value']),
 (r'\.etas\b',['.quantity']),(r'base_denom',['quote_denom']),(r'quote_denom',['base_denom']),
 (r'next_bid_tick',['next_ask_tick']),(r'next_ask_tick',['next_bid_tick']),(r'\.opposite\(\)',['']),
 (r'info\.sender',['env.contract.address']),(r'order\.owner',['info.sender','sender']),(r'inclusive\(',['exclusive(']),
 (r'exclusive\(',['inclusive(']),(r'\bMIN_TICK\b',['MAX_TICK','(MIN_TICK + 1)']),(r'\bMAX_TICK\b',['MIN_TICK','(MAX_TICK - 1)']),
 (r'to_uint_floor',['to_uint_ceil']),(r'to_uint_ceil',['to_uint_floor']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
 (r'zero\(\)',['one()']),(r'one\(\)',['zero()']),(r'\bBid\b',['Ask']),(r'\bAsk\b',['Bid']),
 (r'\bleft\b',['right']),(r'\bright\b',['left']),(r'is_left_child',['is_right_child']),(r'is_zero\(\)',['is_zero() == false']),
 (r'get_expected_denom',['get_opposite_denom']),(r'get_opposite_denom',['get_expected_denom']),
 (r'bid_values',['ask_values']),(r'ask_values',['bid_values']),(r'Some\((\w+)\) =>',None),
 (r'\braw_amount\b',['amount']),(r'\bamount\b',['raw_amount']),(r'\bADMIN\b',['MODERATOR']),(r'\bMODERATOR\b',['ADMIN']),
 (r'ADMIN_OFFER',['MODERATOR_OFFER']),(r'ensure_is_admin\b',['ensure_is_admin_or_moderator']),
 (r'current_tick_bid_etas',['current_tick_ask_etas']),(r'prefix_sum',None),(r'\btick_id\b',None),(r'\bcontinue;',['break;']),(r'\bbreak;',['continue;']),
 (r'return Ok\(\(\)\);',['{}']),(r'percent\((\d+)\)',['percent(2)','percent(6)','percent(9)']),(r'unwrap_or\(true\)',['unwrap_or(false)']),
 (r'sudo_|ensure_active',None),(r'\.rev\(\)',['']),(r'accumulator',['prev']),
]
NUM=re.compile(r'(?<![\w.])(\d[\d_]*)(?![\w.\d])')
def code_lines(f):
    out=[];test=False
    for i,l in enumerate(open(ROOT+f).read().split('\n')):
        s=l.strip()
        if s.startswith('#[cfg(test)]') : test=True
        if test:
            if s.endswith(';') or l.startswith('}') or s=='}': 
                if l.startswith('}') or s.endswith(';'): test=False
            continue
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub const') and 'Map' in s: continue
        out.append((i,l))
    return out
n=0;seen=set()
def emit(f,i,old,new,op):
    global n
    if old==new or (f,i,new,op if op=='delblock' else '') in seen: return
    seen.add((f,i,new,op if op=='delblock' else '')); n+=1
    print(json.dumps(dict(id=f'm{n:04d}',file=f,line=i,old=old,new=new,op=op)))
for f in FILES:
    for i,l in code_lines(f):
        c=l.split(' // ')[0]
        if 'fn ' in c and c.strip().endswith('{') and '(' in c and '=>' not in c: sig=True
        else: sig=False
        if not sig:
            for pat,reps in SWAPS:
                if not reps: continue
                for m in re.finditer(pat,c):
                    for r in reps: emit(f,i,l,l[:m.start()]+r+l[m.end():],f'{pat}->{r}')
            if '"' not in c:
                for m in NUM.finditer(c):
                    v=m.group(1); k=int(v.replace('_',''))
                    for r in {k+1,max(k-1,0)}-{k}:
                        emit(f,i,l,l[:m.start(1)]+str(r)+l[m.end(1):],'num')
        s=c.strip()
        src=open(ROOT+f).read().split('\n')
        if re.match(r'(ensure|ensure_eq)!\($',s) or (re.match(r'[A-Za-z_.:]+(\(|!\(|\w)*.*\($',s) and not s.startswith(('let','return','pub','fn','if','match','for','Ok','Err','Some','.'))):
            ind=len(l)-len(l.lstrip())
            for j in range(i+1,min(i+25,len(src))):
                if len(src[j])-len(src[j].lstrip())==ind and src[j].strip().endswith(';'):
                    emit(f,i,'\n'.join(src[i:j+1]),'','delblock'); break
        if s.endswith(';') and not s.startswith(('let ','pub ','return','}',')','mod ','use ','const ','.')) and s.count('(')==s.count(')') :
            emit(f,i,l,'','del')
        if re.match(r'\s*\.\w+\(.*\)\??,?$',l) and s.count('(')==s.count(')') and not s.endswith(','):
            emit(f,i,l,'','delcall')
        m=re.match(r'(\s*)(\} else )?if (.*) \{$',l)
        if m and ' let ' not in m.group(3) and not m.group(3).startswith('let '):
            for r in ('true','false'): emit(f,i,l,f'{m.group(1)}{m.group(2) or ""}if {r} {{','if')

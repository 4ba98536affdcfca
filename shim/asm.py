#!/usr/bin/env python3
"""Tiny assembler used to validate the shim: emits Cairo-0 style compiled JSON."""
import json, sys, os
P = 2**251 + 17*2**192 + 1
def ins(dst, op0, op1, *, dreg='ap', o0reg='ap', src='imm', res='op1', pc='regular', ap='regular', op='nop'):
    w = (dst+0x8000) | (op0+0x8000) << 16 | (op1+0x8000) << 32
    f = (dreg == 'fp') | (o0reg == 'fp') << 1
    f |= {'op0': 0, 'imm': 1, 'fp': 2, 'ap': 4}[src] << 2
    f |= {'op1': 0, 'add': 1, 'mul': 2}[res] << 5
    f |= {'regular': 0, 'abs': 1, 'rel': 2, 'jnz': 4}[pc] << 7
    f |= {'regular': 0, 'add': 1, 'add1': 2}[ap] << 10
    f |= {'nop': 0, 'call': 1, 'ret': 2, 'assert': 4}[op] << 12
    return w | f << 48
RET = ins(-2, -1, -1, dreg='fp', o0reg='fp', src='fp', pc='abs', op='ret')
def imm(v): return [ins(0, -1, 1, dreg='ap', o0reg='fp', src='imm', ap='add1', op='assert'), v % P]
def asserteq(dst, v): return [ins(dst, -1, 1, o0reg='fp', src='imm', op='assert'), v % P]
def call(rel): return [ins(0, 1, 1, src='imm', pc='rel', op='call'), rel % P]
def prog(data, main, builtins=()):
    return dict(data=[hex(x) for x in data], builtins=list(builtins), identifiers={"__main__.main": dict(pc=main, type='function')})
call_func = prog([ins(0, -4, -3, o0reg='fp', src='fp', res='mul', ap='add1', op='assert'), RET] + imm(2) + imm(3) + call(-6) + asserteq(-1, 6) + [RET], 2)
# fib(1,1,n): main: [ap]=1;[ap]=1;[ap]=n; call fib; assert [ap-1]=F; ret
def fib(n):
    a, b = 1, 1
    for _ in range(n): a, b = b, (a+b) % P
    main = imm(1) + imm(1) + imm(n) + call(5) + asserteq(-1, b) + [RET]
    # fib body: [fp-5]=a, [fp-4]=b, [fp-3]=n
    body = [ins(-3, -1, 1, dreg='fp', o0reg='fp', src='imm', pc='jnz'), 5]     # jmp +5 if n != 0
    body += [ins(0, -1, -4, o0reg='fp', src='fp', ap='add1', op='assert')]    # tempvar result
    body += [ins(0, -1, -4, o0reg='fp', src='fp', ap='add1', op='assert')]    # return (b,)
    body += [RET]
    body += [ins(0, -5, -4, o0reg='fp', src='fp', res='add', ap='add1', op='assert')]  # y = a + b
    body += [ins(0, -1, -4, o0reg='fp', src='fp', ap='add1', op='assert')]    # b
    body += [ins(0, -2, -1, src='ap', ap='add1', op='assert')]                # y  ([ap-2])
    body[-1] = ins(0, -1, -2, o0reg='fp', src='ap', ap='add1', op='assert')
    body += [ins(0, -3, 1, o0reg='fp', src='imm', res='add', ap='add1', op='assert'), (-1) % P]
    body += call(-10) + [RET]
    return prog(main + body, 0)
def cells(vals, builtin):
    # writes each value to the builtin segment, returns the advanced pointer
    d = []
    for i, v in enumerate(vals):
        d += imm(v) + [ins(-1, -3, i, o0reg='fp', src='op0', op='assert')]
    d += [ins(0, -3, 1, o0reg='fp', src='imm', res='add', ap='add1', op='assert'), len(vals), RET]
    return prog(d, 0, [builtin])
if __name__ == '__main__':
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    json.dump(call_func, open(out + '/call_func.json', 'w'))
    json.dump(cells([5, 2], 'range_check'), open(out + '/rc_program.json', 'w'))
    json.dump(cells([1234], 'output'), open(out + '/output_program.json', 'w'))
    for n in (5, 10, 100):
        json.dump(fib(n), open(f'{out}/fibonacci_{n}.json', 'w'))

import subprocess
txt="""C03: e28fdfb, b07cf92, 4405e99, bb1ff58, 1a04d66 · C01: 789d517, 8086674, 361de96, 66bece2, 674c1f8, d7509e5 · C02: d743da9 · C04: 82263f2, 045a097, da6d11d · C06: b6f55a5, bb0b3ab, d451216, 7771981, 2776a18 · C07: 21422a3, ea1fd93 · C08: 405e386 · C09: 3821ec6, 52bdb6c, 770a939, 7b23572 · C10: 472c100, d4f1d60 · C11: c76bf2f, 27ed305, ce9f5bf, 3da91d7, 9df9045, 5396bcc, 3ec86e3 · C12: 21493ab, 8d4bfd0 · C13: 2538f62, 6022373, 9e2eda5, 3cd9ecf, 231a75e, 70a9394, c9387af, 54e6f54, df79157, cafae7c · C14: eb3c9dd, e0a749d · C15: 71a5b9a, 470a251, 17f9b1f, e90ad53, 565f552, cdc283c, 97fdb3e, af32330, 324a8f3, da09051 · C16: 362e639, f8596a6, ebd45f6, 4f69a9f, 996cdfa, 440eadb, 9fb0f6c, e81cea7, 9c0066d, 6999434, f93f792, da09051, c65a5d1, 79f12fb, 9d966e2, d2b9577 · C17: bbfb1d1, 118074d, 6a4885a, 3196032 · C18: 2d8c982, b7902b6, 647e2ac, 9e407b2, 9c3c691, 18b4e83, f3b0096, 9da3021, 5b69662, 181456c, 4d862e9 · C19: b4daad7, 71864aa, c327096, 7b6f7c0, d2470cf, b7030a5, cd41364, b4a1718, c145a22 · C20: c465c27, b83980b, f5f9a33, 3f281bb, 7bb758c, 480bfd1, c98b875, 17dd189, 30133c0, b61b962 · C21: 08d28df, c57f63d, fd5fd36, eaeb5d1, 524c74e, 2aadea9, 36000d7, 7ad8608, 1e821f2, 456a569, 1f2cf66, fcbbcb3, e7fc10e, fdf249c, 24d5b5f, 5aec02c, 3a6e924, cd8a598 · C22: 79a8e8c, d928e66, b2b4315, 66c4706, 26c5748 · C23: c6d62b2, b6883cf, f437b11, f06f0a2, 1735906, eedd4d9, 4ca9ce2, 21557d0, b593e97, 66b201a, 2032fc9"""
out=["# finding: property=<id> key=<key> :: <text>   (suppresses exactly that)","# fixed: property=<id> <commit> <what the commit made true; it failed before>  (suppresses nothing)"]
for part in txt.split(" · "):
    p,cs=part.split(": ")
    for h in cs.split(", "):
        s=subprocess.run(["git","-C","/repo","log","-1","--format=%h %s",h],capture_output=True,text=True).stdout.strip()
        hh,sub=s.split(" ",1)
        out.append(f"fixed: property={p} {hh} did not hold: {sub.removeprefix('fix: ')}")
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")

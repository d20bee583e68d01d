import re,glob
for f in sorted(glob.glob('/verif/spec/*.tla')):
    stack=[]  # columns of open bullets
    incom=False
    for n,line in enumerate(open(f),1):
        raw=line.rstrip('\n')
        s=re.sub(r'"[^"]*"',lambda m:'"'+'x'*(len(m.group())-2)+'"',raw)
        s=re.sub(r'\\\*.*','',s)
        # crude comments
        if incom:
            if '*)' in s: s=' '*(s.index('*)')+2)+s[s.index('*)')+2:]; incom=False
            else: continue
        while '(*' in s:
            a=s.index('(*')
            if '*)' in s[a:]:
                b=s.index('*)',a)+2; s=s[:a]+' '*(b-a)+s[b:]
            else: s=s[:a]; incom=True
        if not s.strip(): continue
        col=len(s)-len(s.lstrip())
        st=s.lstrip()[:2]
        bullet=st in('/\\','\\/')
        while stack and (stack[-1][0]>col or (stack[-1][0]==col and not (bullet and stack[-1][1]==st))): stack.pop()
        if bullet:
            if not(stack and stack[-1]==(col,st)):
                # new bullet list starting a line: allowed if previous line ended with an opener
                prev=getattr(__builtins__,'_p','')
                if not re.search(r'(==|=>|THEN|ELSE|IN|:|\(|/\\|\\/|->|<=>)\s*$',prevline) : print(f'{f}:{n}: {raw}')
                stack.append((col,st))
        # bullets opening inside the line: /\ after an opener token
        for m in re.finditer(r'(==|=>|THEN|ELSE|\bIN|:|\(|/\\|\\/|->|<=>|\[\])\s+(/\\|\\/)(?=\s)',s):
            c=m.start(2)
            stack.append((c,m.group(2)))
        prevline=s

#!/bin/bash
# mkrs.sh N: a scratch copy /tmp/rsN of /repo with its own build and test scripts
N=$1; rm -rf /tmp/rs$N; cp -a /repo /tmp/rs$N; mkdir -p /tmp/vps$N
for f in build.sh test.sh vitest.config.ts results.py; do sed "s#/tmp/rs#/tmp/rs$N#g; s#/tmp/vps/#/tmp/vps$N/#g" /tmp/vps/$f > /tmp/vps$N/$f; done
cp /opt/vp/vitest.setup.ts /tmp/rs$N/.vp-setup.ts; cp /tmp/vps$N/vitest.config.ts /tmp/rs$N/.vp.config.ts
printf '.vp*\n' >> /tmp/rs$N/.git/info/exclude
sed "s#/tmp/vps/#/tmp/vps$N/#g; s#/tmp/rs'#/tmp/rs$N'#; s#/tmp/out2.json#/tmp/out2$N.json#g; s#2.log#2$N.log#g" /tmp/ts.sh > /tmp/ts$N.sh; chmod +x /tmp/ts$N.sh

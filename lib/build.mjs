// Bundles the library under test from $REPO's current working tree.
import { mkdtempSync, writeFileSync, rmSync, existsSync } from 'node:fs';
import { join } from 'node:path';
import { tmpdir } from 'node:os';
import { createRequire } from 'node:module';

export const REPO = process.env.REPO || '/repo';

function loadEsbuild() {
  const candidates = [
    '/opt/veriftools/node/node_modules/',
    join(REPO, 'tools/esbuild-plugin-minify-templates/node_modules/'),
    join(REPO, 'node_modules/'),
  ];
  for (const c of candidates) {
    try {
      return createRequire(c)('esbuild');
    } catch {}
  }
  throw new Error('esbuild not found');
}

export async function buildAll({ minifier = false } = {}) {
  const esbuild = loadEsbuild();
  const dir = mkdtempSync(join(tmpdir(), 'bbverif-'));
  const S = (p) => JSON.stringify(join(REPO, 'src', p));
  const entry = join(dir, 'entry.ts');
  writeFileSync(
    entry,
    [
      `export * from ${S('index.ts')};`,
      `export * from ${S('addons/hooks.ts')};`,
      `export * from ${S('addons/signal.ts')};`,
      `export * from ${S('addons/router.ts')};`,
      `export * from ${S('addons/update-logger.ts')};`,
      `export * from ${S('addons/update-profiler.ts')};`,
    ].join('\n'),
  );
  const common = {
    entryPoints: [entry],
    bundle: true,
    format: 'esm',
    platform: 'neutral',
    target: 'esnext',
    logLevel: 'silent',
    absWorkingDir: dir,
    sourcemap: false,
  };
  await esbuild.build({ ...common, outfile: join(dir, 'debug.mjs') });
  await esbuild.build({
    ...common,
    outfile: join(dir, 'prod.mjs'),
    dropLabels: ['DEBUG'],
    minifySyntax: true,
  });
  if (minifier) {
    const toolDir = join(REPO, 'tools/esbuild-plugin-minify-templates');
    const require = createRequire(join(toolDir, 'package.json'));
    const swc = require.resolve('@swc/core');
    await esbuild.build({
      entryPoints: [join(toolDir, 'src/index.ts')],
      bundle: true,
      format: 'esm',
      platform: 'node',
      target: 'esnext',
      logLevel: 'silent',
      outfile: join(dir, 'minify-plugin.mjs'),
      plugins: [
        {
          name: 'swc-external',
          setup(b) {
            b.onResolve({ filter: /^@swc\/core$/ }, () => ({
              path: swc,
              external: true,
            }));
          },
        },
      ],
    });
    await esbuild.build({
      entryPoints: [join(toolDir, 'src/transform.ts')],
      bundle: true,
      format: 'esm',
      platform: 'node',
      target: 'esnext',
      logLevel: 'silent',
      outfile: join(dir, 'minify.mjs'),
      plugins: [
        {
          name: 'swc-external',
          setup(b) {
            b.onResolve({ filter: /^@swc\/core$/ }, () => ({
              path: swc,
              external: true,
            }));
          },
        },
      ],
    });
  }
  await esbuild.stop?.();
  return {
    dir,
    cleanup() {
      if (dir.startsWith(join(tmpdir(), 'bbverif-')) && existsSync(dir)) {
        rmSync(dir, { recursive: true, force: true });
      }
    },
  };
}

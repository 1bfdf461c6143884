// Builds the wasm harness (and the native reference runner) from /repo's current working tree.
// Everything goes under /verif/target; /repo is only read.
import { spawn } from 'node:child_process';
import crypto from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

export const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
const REPO = process.env.VH_REPO || '/repo';
const TARGET = path.join(ROOT, 'target');
const TOOLCHAIN = '1.97.0'; // the installed toolchain that has the wasm32 target
const BINDGEN = '/opt/wasm-bindgen/bin/wasm-bindgen';

export const VARIANTS = {
  'prod-checked': { profile: 'checked', features: [] },
  'prod-plain': { profile: 'plain', features: [] },
  'tu-checked': { profile: 'checked', features: ['testutil'] },
  'tu-plain': { profile: 'plain', features: ['testutil'] },
};

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) { if (e.name !== 'target' && e.name !== '.git') walk(p, out); } else if (e.isFile()) out.push(p);
  }
  return out;
}
function hashFiles(files) {
  const h = crypto.createHash('sha256');
  for (const f of files) { h.update(f + '\0'); h.update(fs.readFileSync(f)); h.update('\0'); }
  return h.digest('hex');
}
export function treeHash(which) {
  if (which === 'native') return hashFiles(walk(path.join(ROOT, 'native')));
  if (which === 'instrument') return hashFiles(walk(path.join(ROOT, 'instrument')));
  return hashFiles([...walk(path.join(ROOT, 'instrument')), ...walk(path.join(REPO, 'src')), path.join(REPO, 'Cargo.toml'), ...walk(path.join(ROOT, 'harness'))]);
}

function run(cmd, args, opts) {
  return new Promise((res, rej) => {
    const p = spawn(cmd, args, { stdio: ['ignore', 'pipe', 'pipe'], ...opts });
    let out = '';
    p.stdout.on('data', (d) => (out += d));
    p.stderr.on('data', (d) => (out += d));
    p.on('error', rej);
    p.on('close', (c) => (c === 0 ? res(out) : rej(new Error(`${cmd} ${args.join(' ')}: exit ${c}\n${out.slice(-6000)}`))));
  });
}
function env() {
  return {
    ...process.env, HOME: '/root', PATH: '/root/.cargo/bin:' + process.env.PATH,
    RUSTUP_TOOLCHAIN: TOOLCHAIN, CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', RUSTC_WRAPPER: '',
    CARGO_INCREMENTAL: '0', RUSTFLAGS: '',
  };
}

export function artDir(variant) { return path.join(TARGET, 'art', variant); }

async function buildVariant(v, instrument) {
  const { profile, features } = VARIANTS[v];
  const stampFile = path.join(artDir(v), 'stamp');
  const h = treeHash('wasm');
  if (fs.existsSync(stampFile) && fs.readFileSync(stampFile, 'utf8') === h) return false;
  const tdir = path.join(TARGET, v);
  // cargo judges freshness by mtime; we judge by content, so make it look again
  const fp = path.join(tdir, 'wasm32-unknown-unknown', profile, '.fingerprint');
  if (fs.existsSync(fp)) for (const d of fs.readdirSync(fp)) if (/^(wasmtimer|vharness)-/.test(d)) fs.rmSync(path.join(fp, d), { recursive: true });
  const args = ['build', '--offline', '--locked', '--manifest-path', path.join(ROOT, 'harness/Cargo.toml'), '--target', 'wasm32-unknown-unknown', '--profile', profile, '--target-dir', tdir];
  if (features.length) args.push('--features', features.join(','));
  await run('cargo', args, { env: env(), cwd: ROOT });
  fs.mkdirSync(artDir(v), { recursive: true });
  fs.rmSync(stampFile, { force: true });
  await run(BINDGEN, [path.join(tdir, 'wasm32-unknown-unknown', profile, 'vharness.wasm'), '--target', 'no-modules', '--no-typescript', '--out-dir', artDir(v)], { env: env() });
  const wasm = path.join(artDir(v), 'vharness_bg.wasm');
  await instrument;
  await run(INSTRUMENT_BIN, [wasm, wasm + '.tmp'], { env: env() });
  fs.renameSync(wasm + '.tmp', wasm);
  fs.writeFileSync(stampFile, h);
  return true;
}
export const NATIVE_BIN = path.join(TARGET, 'art', 'native-ref');
const INSTRUMENT_BIN = path.join(TARGET, 'art', 'instrument');
/** A program that runs on the host of the checks, not on wasm. */
async function buildHostBin(which, dir, bin) {
  const stampFile = bin + '.stamp';
  const h = treeHash(which);
  if (fs.existsSync(stampFile) && fs.existsSync(bin) && fs.readFileSync(stampFile, 'utf8') === h) return false;
  const tdir = path.join(TARGET, which);
  await run('cargo', ['build', '--offline', '--locked', '--release', '--manifest-path', path.join(ROOT, dir, 'Cargo.toml'), '--target-dir', tdir], { env: env(), cwd: ROOT });
  fs.mkdirSync(path.dirname(bin), { recursive: true });
  fs.copyFileSync(path.join(tdir, 'release', path.basename(bin)), bin);
  fs.chmodSync(bin, 0o755);
  fs.writeFileSync(stampFile, h);
  return true;
}
export async function build(variants, native = false) {
  const instrument = buildHostBin('instrument', 'instrument', INSTRUMENT_BIN);
  const jobs = [instrument, ...variants.map((v) => buildVariant(v, instrument))];
  if (native) jobs.push(buildHostBin('native', 'native', NATIVE_BIN));
  const r = await Promise.allSettled(jobs);
  const bad = r.find((x) => x.status === 'rejected');
  if (bad) throw bad.reason;
}

if (process.argv[1] === fileURLToPath(import.meta.url)) {
  const t0 = Date.now();
  build(Object.keys(VARIANTS), fs.existsSync(path.join(ROOT, 'native'))).then(
    () => console.log(`built in ${(Date.now() - t0) / 1000} s`),
    (e) => { console.error(e.message); process.exit(2); },
  );
}

// Mutation records, whether delivered to the callback or still queued.
export function observe(root, init = { childList: true, attributes: true, characterData: true, subtree: true }) {
  let records = [];
  const o = new window.MutationObserver((rs) => { records.push(...rs); });
  o.observe(root, init);
  return {
    take() {
      records.push(...o.takeRecords());
      const r = records;
      records = [];
      return r;
    },
    stop() {
      o.disconnect();
    },
  };
}

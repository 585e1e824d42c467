// stand-in for the reqwest package: the driver performs the request
export default function (opts) { return globalThis.__reqwest(opts); }

import { cdk } from "../lib/cdk.mjs";

export const meta = { parallel: true, bounds: "every environment of 2 deployed as every combination of network, database (created, restored, imported), proxy and DNS stack deviating from the defaults in at most 3 (quick) / 5 (thorough) of 13 ways; every endpoint text of up to 4 (quick) / 6 (thorough) parts; every parameter kind" };

export async function run(ctx) {
  const k = await cdk({ net: "aws/infra/stacks/network-stack.ts", db: "aws/infra/stacks/db-stack.ts", px: "aws/infra/stacks/db-proxy-stack.ts", dns: "aws/infra/stacks/db-dns-stack.ts", imp: "aws/infra/import-util.ts", par: "aws/infra/stack/parameters.ts" }, ["x"]);
  const rds = k.q("aws-rds"), ec2 = k.q("aws-ec2");
  const app = () => k.plainStack("Anchor").node.root;
  const env = { account: "111111111111", region: "eu-west-1" };

  // CloudFormation as far as these stacks use it: values across stacks go through exports and the parameter store
  class Cloud {
    exports = {}; params = {}; n = 0;
    deploy(stack, c) {
      const t = k.template(stack);
      const name = stack.stackName;
      const parameters = {};
      for (const [id, p] of Object.entries(t.Parameters ?? {})) {
        if (!/^AWS::SSM::Parameter::Value</.test(p.Type)) continue;
        c.check(p.Default in this.params, "parameter-missing", `${name} reads ${p.Default}`);
        parameters[id] = this.params[p.Default];
      }
      const ev = (x) => {
        if (Array.isArray(x)) return x.map(ev);
        if (!x || typeof x !== "object") return x;
        const [f] = Object.keys(x);
        if (f === "Ref") return x.Ref in parameters ? parameters[x.Ref] : x.Ref in (t.Resources ?? {}) ? `${name}:${x.Ref}` : x.Ref;
        if (f === "Fn::GetAtt") return `${name}:${list(x[f]).join(".")}`;
        if (f === "Fn::Join") return ev(x[f][1]).join(x[f][0]);
        if (f === "Fn::ImportValue") { const n = ev(x[f]); c.check(n in this.exports, "export-missing", `${name} imports ${n}`); return this.exports[n]; }
        return Object.fromEntries(Object.entries(x).map(([kk, v]) => [kk, ev(v)]));
      };
      const resources = Object.fromEntries(Object.entries(t.Resources ?? {}).map(([id, r]) => [id, { ...r, Properties: ev(r.Properties ?? {}) }]));
      for (const r of Object.values(resources)) if (r.Type === "AWS::SSM::Parameter") { c.check(!(r.Properties.Name in this.params), "parameter-twice", r.Properties.Name); this.params[r.Properties.Name] = r.Properties.Value; }
      for (const o of Object.values(t.Outputs ?? {})) if (o.Export) { c.check(!(o.Export.Name in this.exports), "export-twice", o.Export.Name); this.exports[o.Export.Name] = ev(o.Value); }
      const of = (type) => Object.entries(resources).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id: `${name}:${id}`, ...r.Properties, $: r }));
      return { of, t };
    }
  }
  const list = (x) => [x].flat();
  const V = rds.AuroraPostgresEngineVersion;

  await ctx.explore("environments", async (c) => {
    const d = (n, v) => c.deviate(n, v);
    const o = {
      tgw: d("transit gateway", [undefined, "tgw-1"]), cidr: d("cidr", ["10.0.0.0/16", "10.9.0.0/20"]),
      kind: d("database", ["create", "restore", "import", "both", "neither", "bad import"]),
      versions: d("parameter groups", [[V.VER_16_4], [], [V.VER_16_4, V.VER_15_8]]), workmem: d("work mem", [undefined, 1024]),
      readers: d("readers", [1, 0, 2]), encrypted: d("encrypted", [undefined, true, false]), ownVpc: d("own vpc", [false, true]), legacy: d("legacy", [undefined, true]),
      proxyName: d("proxy name", [undefined, "Own"]), proxyCluster: d("proxy cluster", ["own", "given", ""]), second: d("second environment", [false, true]),
      environment: d("environment", ["test", "my-env"]),
    };
    const cloud = new Cloud();
    const root = app();
    const deployEnv = (environmentName) => {
      const isc = { env, environmentName };
      const id = (s) => `${environmentName}-${s}`;
      // ---- network ----
      const ns = new k.net.NetworkStack(root, id("net"), isc, { vpcName: "Vpc", cidr: o.cidr, transitGatewayId: o.tgw });
      const net = cloud.deploy(ns, c);
      const [vpc] = net.of("AWS::EC2::VPC");
      c.equal([vpc.CidrBlock, vpc.EnableDnsHostnames, vpc.EnableDnsSupport], [o.cidr, true, true], "vpc");
      const subnets = net.of("AWS::EC2::Subnet");
      c.equal([subnets.length, new Set(subnets.map((s) => s.CidrBlock)).size, new Set(subnets.map((s) => s.AvailabilityZone)).size], [4, 4, 2], "subnets");
      c.equal(net.of("AWS::EC2::NatGateway").length, o.tgw ? 0 : 2, "nat-gateways");
      const defaultRoute = (subnetId) => {
        const assoc = net.of("AWS::EC2::SubnetRouteTableAssociation").find((a) => a.SubnetId === subnetId);
        const r = net.of("AWS::EC2::Route").filter((x) => x.RouteTableId === assoc.RouteTableId && x.DestinationCidrBlock === "0.0.0.0/0");
        return r.map((x) => (x.GatewayId ? "internet" : x.NatGatewayId ? "nat" : x.TransitGatewayId ?? "?"));
      };
      const ex = (n) => cloud.exports[`digitraffic-${environmentName}-${n}`];
      const zone = (sid) => subnets.find((s) => s.id === sid)?.AvailabilityZone;
      const out = ["publicA", "publicB", "privateA", "privateB"].map((n) => ex(`digitraffic${n}Subnet`));
      c.equal(ex("VPCID"), vpc.id, "vpc-export");
      c.equal([new Set(out).size, zone(out[0]) === zone(out[1]), zone(out[2]) === zone(out[3])], [4, false, false], "subnet-exports");
      c.equal(out.map((s) => defaultRoute(s)), [["internet"], ["internet"], [o.tgw ?? "nat"], [o.tgw ?? "nat"]], "routes");
      const privates = out.slice(2);
      // ---- database ----
      const cluster = { securityGroupId: "sg-db", dbVersion: V.VER_16_4, writer: { instanceType: new ec2.InstanceType("r6g.large"), isFromLegacyInstanceProps: o.legacy }, readers: Array.from({ length: o.readers }, (_, i) => ({ instanceType: new ec2.InstanceType(i ? "r6g.2xlarge" : "r6g.xlarge"), isFromLegacyInstanceProps: o.legacy })), ...(o.kind === "restore" ? { snapshotIdentifier: "snap-1" } : {}) };
      const clusterImport = { clusterWriteEndpoint: o.kind === "bad import" ? "localhost" : `${environmentName}-x.cluster-abc.eu-west-1.rds.amazonaws.com`, clusterReadEndpoint: `${environmentName}-x.cluster-ro-abc.eu-west-1.rds.amazonaws.com` };
      const has = { create: [1, 0], restore: [1, 0], import: [0, 1], "bad import": [0, 1], both: [1, 1], neither: [0, 0] }[o.kind];
      const conf = { secretArn: `arn:aws:secretsmanager:eu-west-1:111111111111:secret:${environmentName}-AbCdEf`, customParameterGroups: o.versions, workmem: o.workmem, storageEncrypted: o.encrypted, ...(has[0] ? { cluster } : {}), ...(has[1] ? { clusterImport } : {}), ...(o.ownVpc ? { vpc: ns.vpc } : {}) };
      let ds, threw;
      try { ds = new k.db.DbStack(root, id("db"), isc, conf); } catch (e) { if (e.constructor.name !== "Error") throw e; threw = e.message; }
      const refuse = o.kind === "both" || o.kind === "neither" || o.kind === "bad import" || (has[0] && o.versions.length === 0);
      c.equal(!!threw, !!refuse, "database-refused", threw);
      if (threw) return "refused";
      if (o.ownVpc && has[0]) {
        // the network of another stack of the same application: its exports are made by CDK when it synthesises
        return "own vpc";
      }
      const db = cloud.deploy(ds, c);
      const [cl] = db.of("AWS::RDS::DBCluster");
      const groups = db.of("AWS::RDS::DBClusterParameterGroup"), igroups = db.of("AWS::RDS::DBParameterGroup");
      const mem = String(o.workmem ?? 524288);
      for (const list of [groups, igroups]) c.equal(list.map((g) => [g.Family, g.Parameters.work_mem, g.Parameters.random_page_cost, g.Parameters["pg_stat_statements.track"]]), o.versions.map((v) => [`aurora-postgresql${v.auroraPostgresMajorVersion}`, mem, "1", "ALL"]), "parameter-groups");
      let writer, reader, identifier;
      if (has[0]) {
        writer = `${cl.id}.Endpoint.Address`; reader = `${cl.id}.ReadEndpoint.Address`; identifier = cl.id;
        c.equal([cl.Engine, cl.EngineVersion, cl.DeletionProtection, cl.BackupRetentionPeriod, cl.Port, cl.StorageEncrypted, cl.$.DeletionPolicy, cl.$.UpdateReplacePolicy, cl.SnapshotIdentifier, cl.VpcSecurityGroupIds, cl.DBClusterParameterGroupName],
          ["aurora-postgresql", "16.4", true, 35, 5432, o.encrypted ?? true, "Retain", "Retain", o.kind === "restore" ? "snap-1" : undefined, ["sg-db"], groups[0].id], "cluster");
        const keys = db.of("AWS::KMS::Key");
        c.equal([keys.length, keys.map((x) => [x.EnableKeyRotation, x.$.DeletionPolicy]), cl.KmsKeyId], o.encrypted ? [1, [[true, "Retain"]], `${keys[0]?.id}.Arn`] : [0, [], undefined], "key");
        // the restored cluster keeps the credentials of its snapshot
        c.check(!/"(password|db\.superuser\.password)":"[^{]/.test(JSON.stringify(cl)), "plain-password", "");
        const [sg] = db.of("AWS::RDS::DBSubnetGroup");
        c.equal([...sg.SubnetIds].sort(), [...privates].sort(), "cluster-subnets");
        const inst = db.of("AWS::RDS::DBInstance");
        c.equal(inst.map((i) => [i.DBInstanceClass, i.DBClusterIdentifier, i.EngineVersion, i.EnablePerformanceInsights, i.PubliclyAccessible ?? false, i.DBParameterGroupName]), ["db.r6g.large", "db.r6g.xlarge", "db.r6g.2xlarge"].slice(0, 1 + o.readers).map((x) => [x, cl.id, undefined, true, false, igroups[0].id]), "instances");
        c.equal([ex("db-cluster"), ex("db-cluster-writer-endpoint"), ex("db-cluster-reader-endpoint")].map((x, i) => x ?? exportOf(i)), [identifier, writer, reader], "database-exports");
      } else {
        c.equal(cl, undefined, "unwanted-cluster");
        writer = clusterImport.clusterWriteEndpoint; reader = clusterImport.clusterReadEndpoint; identifier = `${environmentName}-x`;
      }
      function exportOf(i) { return ex([k.db.DbStack.CLUSTER_IDENTIFIER_EXPORT_NAME, k.db.DbStack.CLUSTER_WRITE_ENDPOINT_EXPORT_NAME, k.db.DbStack.CLUSTER_READ_ENDPOINT_EXPORT_NAME][i]); }
      c.equal(["writer-endpoint", "reader-endpoint", "identifier"].map((n) => cloud.params[`/digitraffic/db/${n}`]), [writer, reader, identifier], "database-parameters");
      if (has[1]) c.equal(ds.clusterIdentifier, identifier, "identifier");
      // ---- proxy and DNS ----
      let proxyWriter, proxyReader;
      const deployProxy = () => {
        const clusterIdentifier = o.proxyCluster === "own" ? identifier : o.proxyCluster;
        let ps, bad;
        try { ps = new k.px.DbProxyStack(root, id("proxy"), isc, { secretArn: conf.secretArn, name: o.proxyName, securityGroupId: "sg-proxy", clusterIdentifier }); } catch (e) { if (e.constructor.name !== "Error") throw e; bad = e.message; }
        c.equal(!!bad, clusterIdentifier === "", "proxy-refused", bad);
        if (bad) return false;
        const px = cloud.deploy(ps, c);
        const [p] = px.of("AWS::RDS::DBProxy"), [ep] = px.of("AWS::RDS::DBProxyEndpoint"), [tg] = px.of("AWS::RDS::DBProxyTargetGroup");
        c.equal([p.DBProxyName, [...p.VpcSubnetIds].sort(), p.VpcSecurityGroupIds, p.Auth.map((a) => a.SecretArn), p.EngineFamily, p.IdleClientTimeout], [o.proxyName ?? "AuroraProxy", [...privates].sort(), ["sg-proxy"], [conf.secretArn], "POSTGRESQL", 1800], "proxy");
        c.equal([tg.DBClusterIdentifiers, tg.DBProxyName, tg.ConnectionPoolConfigurationInfo.MaxConnectionsPercent, tg.ConnectionPoolConfigurationInfo.MaxIdleConnectionsPercent, tg.ConnectionPoolConfigurationInfo.ConnectionBorrowTimeout], [[clusterIdentifier], p.id, 50, 25, 120], "proxy-target");
        c.equal([ep.TargetRole, ep.DBProxyName, [...ep.VpcSubnetIds].sort(), ep.VpcSecurityGroupIds], ["READ_ONLY", p.id, [...privates].sort(), ["sg-proxy"]], "reader-endpoint");
        proxyWriter = `${p.id}.Endpoint`; proxyReader = `${ep.id}.Endpoint`;
        // the exports name the proxy itself: with one instance there is no reader endpoint
        c.equal([ex("db-writer-endpoint"), ex("db-reader-endpoint")], [proxyWriter, proxyWriter], "proxy-exports");
        c.equal(["proxy-writer-endpoint", "proxy-reader-endpoint"].map((n) => cloud.params[`/digitraffic/db/${n}`]), [proxyWriter, proxyReader], "proxy-parameters");
        return true;
      };
      const deployDns = () => {
        const xs = cloud.deploy(new k.dns.DbDnsStack(root, id("dns"), isc), c);
        const [z] = xs.of("AWS::Route53::HostedZone");
        c.equal([z.Name, z.VPCs.map((v) => v.VPCId), z.$.DeletionPolicy], [`${environmentName}.local.`, [vpc.id], "Retain"], "zone");
        const recs = Object.fromEntries(xs.of("AWS::Route53::RecordSet").map((r) => [r.Name.replace(/\.$/, ""), [r.Type, r.ResourceRecords, r.HostedZoneId, r.TTL]]));
        const rec = (v) => ["CNAME", [v], z.id, "30"];
        c.equal(recs, { [`db.${environmentName}.local`]: rec(writer), [`db-ro.${environmentName}.local`]: rec(reader), [`proxy.${environmentName}.local`]: rec(proxyWriter), [`proxy-ro.${environmentName}.local`]: rec(proxyReader) }, "records");
      };
      if (!deployProxy()) return "proxy refused";
      deployDns();
      return `${o.kind}`;
    };
    const r = deployEnv(o.environment);
    if (o.second) { cloud.params = {}; deployEnv("other"); } // another account: its own parameter store
    return r;
  }, { bound: ctx.thorough ? 5 : 3 });

  await ctx.explore("cluster identifiers", (c) => {
    const parts = ["db-1", ".cluster", "-ro", "-abc", ".eu-west-1", ""];
    const n = c.choose("parts", ctx.thorough ? [0, 1, 2, 3, 4, 5, 6] : [0, 1, 2, 3, 4]);
    let s = "";
    for (let i = 0; i < n; i++) s += c.choose("part", parts);
    const given = c.bool("given"), fallback = c.choose("fallback", [undefined, "", "fall"]);
    const at = s.indexOf(".cluster");
    const want = given && at > 0 ? s.slice(0, at) : fallback || "ERROR";
    let got;
    try { got = k.db.parseClusterIdentifier(given ? { clusterWriteEndpoint: s, clusterReadEndpoint: "r.cluster" } : undefined, fallback); } catch (e) { got = e.constructor.name === "Error" ? "ERROR" : String(e); }
    c.equal(got, want, "identifier", s);
    return want;
  }, { sync: true });

  await ctx.explore("parameters and exports", (c) => {
    const kinds = ["cluster.reader", "cluster.writer", "cluster.identifier", "proxy.reader", "proxy.writer"];
    const w = c.choose("written", kinds), r = c.choose("read", [...kinds, "topic.alarm", "topic.warning"]);
    const a = k.plainStack("A");
    k.par.createParameter(a, w, "the value");
    const [p] = k.of(k.template(a), "AWS::SSM::Parameter");
    const b = k.plainStack("B");
    const v = k.par.getParameterValue(b, r);
    const t = k.template(b);
    const name = t.Parameters[b.resolve(v).Ref].Default;
    c.equal([p.Value, name === p.Name], ["the value", w === r], "parameter", `${w} ${r}`);
    const e1 = c.choose("env", ["test", "prod"]), e2 = c.choose("env2", ["test", "prod"]), n1 = c.choose("name", ["VPCID", "x"]), n2 = c.choose("name2", ["VPCID", "x"]);
    const s = k.plainStack("E");
    k.imp.exportValue(s, e1, n1, "v");
    const [ex] = Object.values(k.template(s).Outputs);
    c.equal([ex.Value, ex.Export.Name === s.resolve(k.imp.importValue(e2, n2))["Fn::ImportValue"]], ["v", e1 === e2 && n1 === n2], "export", `${e1} ${n1} ${e2} ${n2}`);
    return String(w === r);
  });
}

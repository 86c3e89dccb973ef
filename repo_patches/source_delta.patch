From 1927b863d8656f1a755a4ca956ae2a10c51bdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 01/58] fix: clear retry's attempt timeout when the attempt
 settles

The 30 minute timer of every attempt was left armed, keeping the process alive
long after retry() had settled.
---
 lib/digitraffic-common/src/utils/retry.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/retry.ts b/lib/digitraffic-common/src/utils/retry.ts
index dc0e60f..df63d17 100644
--- a/lib/digitraffic-common/src/utils/retry.ts
+++ b/lib/digitraffic-common/src/utils/retry.ts
@@ -71,15 +71,19 @@ async function retryRecursive<T>(
   if (retries > 100) {
     throw new Error("Exceeded the maximum retry count of 100");
   }
+  let timeoutTimer: ReturnType<typeof setTimeout> | undefined;
   try {
     // NOTE, a Promise cannot be cancelled. So if the asyncFn calls multiple async/await paris and the first one takes 31 minutes to complete,
     // then the rest of async/await pairs will be called even though AsyncTimeoutError is already thrown.
     const result: T = await Promise.race([
       asyncFn(),
-      new Promise<never>((_resolve, reject) =>
-        setTimeout(() => reject(new AsyncTimeoutError()), asyncFnTimeout),
-      ),
-    ]);
+      new Promise<never>((_resolve, reject) => {
+        timeoutTimer = setTimeout(
+          () => reject(new AsyncTimeoutError()),
+          asyncFnTimeout,
+        );
+      }),
+    ]).finally(() => clearTimeout(timeoutTimer));
     return result;
   } catch (error) {
     const remainingRetries = retries - 1;
-- 
2.43.0


From 67618b07122645c67770d31fd9573b32dcb8f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 02/58] fix: send a proper ETag for base64 encoded bodies

The header carried the whole decoded body instead of an entity tag.
---
 .../src/aws/types/lambda-proxy-types.ts                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..4d54454 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -1,6 +1,6 @@
 import type { APIGatewayProxyEvent, APIGatewayProxyResult } from "aws-lambda";
 import etag from "etag";
-import { compressBuffer, decodeBase64ToUtf8 } from "../../utils/base64.js";
+import { compressBuffer } from "../../utils/base64.js";
 import { truncateMiddle } from "../../utils/logging.js";
 import { StopWatch } from "../../utils/stop-watch.js";
 import { logger } from "../runtime/dt-logger-default.js";
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? Buffer.from(this.body, "base64") : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From f5f16528b903a0d3f101714c14f2f41ede9cbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 03/58] fix: declare gzip encoding only for a body that was
 compressed

With compression enabled, an empty body and a body given already base64 encoded
were returned as they are, but labelled Content-Encoding: gzip.
---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 4d54454..7133aaa 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -168,6 +168,10 @@ export class LambdaProxyResponseBuilder {
     if (!this.body && !bodyNotRequired) {
       throw new Error("Body is required for LambdaResponseBuilder");
     }
+    if (!this.body || this.isBase64Encoded) {
+      // nothing to compress, so there must be no Content-Encoding either
+      this.compressBody = false;
+    }
     // This needs to be called before building the response as this might modify compressBody value
     const maybeEncodedBody = this.body ? this.encodeBody() : "";
 
-- 
2.43.0


From e706b1f2940917bfa8b7c3d019c6e7419a39876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 04/58] fix: use the request template of an integration that
 only passes the body

build() left the template out, so the handler never got the payload parameter.
---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..d2aa3bd 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -146,7 +146,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From 7d7ac62a8f03fd73f11d28b21eb4b55ebd7d86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 05/58] fix: pass request parameters to lambdas as valid JSON

Values of pass-all query parameters were not escaped at all, so a quote in a
query string could break or inject into the event, and escaped single quotes
are not valid JSON. A query parameter could also replace a declared path,
header or context parameter of the same name.
---
 .../src/aws/infra/api/integration.ts          | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index d2aa3bd..d08958b 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,18 @@ interface ApiParameter {
   name: string;
 }
 
+/**
+ * Escapes a value for a JSON string. escapeJavaScript also escapes single quotes, which is not valid in JSON.
+ * See https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-mapping-template-reference.html#util-template-reference
+ */
+function escapeForJson(reference: string): string {
+  return `$util.escapeJavaScript(${reference}).replaceAll("\\\\'", "'")`;
+}
+
+// declared parameters can't be overridden by query parameters of the same name
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+    #if( ! $paramMap.containsKey("_$paramName") && ! $paramMap.containsKey($paramName) && $paramName.substring(0, 1) != '_')
+        #set($tmp = $paramMap.put(${escapeForJson("$paramName")}, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
@@ -179,7 +188,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -188,15 +197,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -215,7 +224,7 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 #if( $paramName.substring(0, 1) != '_')
     "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From ac1bf1cd86ee004e1c12c225c702b31e4b6c076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 06/58] fix: keep the response body of deprecated integrations
 unchanged

The template that adds the deprecation headers also added white space to the body.
---
 .../src/aws/infra/api/response.ts               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 5232f12..a4614f4 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -50,14 +50,15 @@ $util.base64Decode($inputRoot.body)`;
  */
 
 export const getDeprecatedDefaultLambdaResponse = (sunset?: string): string => {
-  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')
-    ${
-      sunset
-        ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
-            sunset,
-          ).toUTCString()}')`
-        : ""
-    }`;
+  // no white space or line feeds here, as they would end up in the response body
+  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')##
+${
+  sunset
+    ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
+        sunset,
+      ).toUTCString()}')##`
+    : ""
+}`;
   return RESPONSE_DEFAULT_LAMBDA.concat(setDeprecationHeaders);
 };
 
-- 
2.43.0


From d070b5b4e5a67b1deddbc72a5fb1935bfa019748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 07/58] fix: log bigint values and invalid dates instead of
 throwing

---
 .../src/aws/runtime/dt-logger.ts              | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..2ea245c 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -115,7 +115,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +177,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : toJson(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,15 +229,26 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * JSON.stringify with support for bigint, written as a string.
+ */
+function toJson(value: unknown): string {
+  return JSON.stringify(value, (_key, v: unknown) =>
+    typeof v === "bigint" ? v.toString() : v,
+  );
+}
+
 function valueToString(value: unknown): string {
   if (value === undefined) {
     return "undefined";
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    return Number.isNaN(value.getTime())
+      ? String(value)
+      : value.toISOString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return toJson(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
-- 
2.43.0


From 7c4a097a894fd42ac6babe4e44edc05b16d979ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 08/58] fix: keep the whole allowance when truncating the
 middle of a string

---
 lib/digitraffic-common/src/utils/logging.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..55e9383 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -101,5 +101,5 @@ export function truncateMiddle(str: string, max = 1000): string {
     return str;
   }
   const half = Math.floor(max / 2);
-  return `${str.slice(0, half).trim()} [TRUNCATED ${str.length - max} CHARS] ${str.slice(str.length - half).trim()}`;
+  return `${str.slice(0, max - half).trim()} [TRUNCATED ${str.length - max} CHARS] ${str.slice(str.length - half).trim()}`;
 }
-- 
2.43.0


From 1117428a05142b5ad01b938b3d443f8bff80b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 09/58] fix: only accept whole numbers as IMO and MMSI

---
 lib/digitraffic-common/src/marine/id_utils.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/marine/id_utils.ts b/lib/digitraffic-common/src/marine/id_utils.ts
index cbcd326..964b235 100644
--- a/lib/digitraffic-common/src/marine/id_utils.ts
+++ b/lib/digitraffic-common/src/marine/id_utils.ts
@@ -1,7 +1,12 @@
 import { logger } from "../aws/runtime/dt-logger-default.js";
 
 export function isValidIMO(imo: number): boolean {
-  return imo >= 1000000 && imo <= 9999999 && imoChecksumIsValid(imo);
+  return (
+    Number.isInteger(Number(imo)) &&
+    imo >= 1000000 &&
+    imo <= 9999999 &&
+    imoChecksumIsValid(imo)
+  );
 }
 
 function imoChecksumIsValid(imo: number): boolean {
@@ -32,7 +37,11 @@ function imoChecksumIsValid(imo: number): boolean {
 }
 
 export function isValidMMSI(mmsi: number): boolean {
-  return mmsi >= 100000000 && mmsi <= 999999999;
+  return (
+    Number.isInteger(Number(mmsi)) &&
+    mmsi >= 100000000 &&
+    mmsi <= 999999999
+  );
 }
 
 const LocodePattern = /^FI[A-Z]{3}$/i;
-- 
2.43.0


From 344307a5ad1701c5f51eee8b5a9638acb24357c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 10/58] fix: order by the given sort function in getFirst and
 getLast, leaving the array as it is

---
 lib/digitraffic-common/src/utils/utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 3dde940..9a5269f 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -69,7 +69,9 @@ function getFirstOrLast<T>(
   const index = getFirst ? 0 : array.length - 1;
 
   if (sortFunction) {
-    return array.sort(sortFunction)[index] as T;
+    return array.toSorted((a, b) => sortFunction(a) - sortFunction(b))[
+      index
+    ] as T;
   }
 
   return array[index] as T;
-- 
2.43.0


From 13e20eddcca8979376c1e8f11a21229627d7b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 11/58] fix: keep dates in omitDeep

---
 lib/digitraffic-common/src/utils/utils.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 9a5269f..19ae9cb 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -193,8 +193,8 @@ export function isDefined<T>(value: T | undefined | null): value is T {
  * @returns New same type of object as that was given as input but with the keys omitted.
  */
 export function omitDeep<T>(obj: T, ...keysToOmit: readonly string[]): T {
-  if (!isObject(obj)) {
-    // primitive values are returned as-is
+  if (!isObject(obj) || obj instanceof Date) {
+    // primitive values and dates are returned as-is
     return obj;
   }
 
-- 
2.43.0


From 9dbd0f7e34bc13355699108e555081eee22634ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 12/58] fix: keep the rings and polygons of a WKT geometry
 apart

---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..32a7496 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From c45d82b71ee40ed82e30f7ece736623cb005de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 13/58] fix: accept zero coordinates when calculating a
 distance

---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index 32a7496..c548078 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -140,10 +140,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From 00c6619f8edac27ba51d27d72ccbe026e1908d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 14/58] fix: fail the canary when a check of expect200 fails

---
 lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..b92c510 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map((c) => c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
-- 
2.43.0


From 810a5c62ce0b842d335fb021157e00234f331fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 15/58] fix: verify the status code in expectStatus

---
 .../src/aws/infra/canaries/url-checker.ts           | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index b92c510..cef298c 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -84,10 +84,19 @@ export class UrlChecker {
       },
     };
 
-    await synthetics.executeHttpStep(
+    await synthetics.executeHttpStep<T>(
       `Verify ${statusCode} for ${sanitizeStepName(url)}`,
       requestOptions,
-      callback,
+      async (json, body, message) => {
+        // Synthetics gives the response as the only argument
+        const response = message ?? (json as IncomingMessage);
+        if (response.statusCode !== statusCode) {
+          throw new Error(
+            `${response.statusCode ?? undefined} ${response.statusMessage ?? undefined}`,
+          );
+        }
+        await callback(json, body, message);
+      },
     );
   }
 
-- 
2.43.0


From 93222964e8a561ab4fcdfa258a4ded2784348dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 16/58] fix: decompress the bytes of a gzip response in
 canaries

---
 .../src/aws/infra/canaries/url-checker.ts                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index cef298c..702ff12 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -190,8 +190,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -199,7 +199,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From f2d73643fbad4274ac1c82cd8637f1cff01cb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 17/58] fix: fail expectZero when the count is not zero

---
 .../src/aws/infra/canaries/database-checker.ts               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..9908ddf 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -2,6 +2,7 @@ import synthetics from "Synthetics";
 import type { DTDatabase } from "../../../database/database.js";
 import { inDatabaseReadonly } from "../../../database/database.js";
 import type { Countable } from "../../../database/models.js";
+import { isDefined } from "../../../utils/utils.js";
 import { logger } from "../../runtime/dt-logger-default.js";
 import { ProxyHolder } from "../../runtime/secrets/proxy-holder.js";
 import { RdsHolder } from "../../runtime/secrets/rds-holder.js";
@@ -52,13 +53,13 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (isDefined(this.minCount) && value.count < this.minCount) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (isDefined(this.maxCount) && value.count > this.maxCount) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 9b720f4683aff7d61732d7d0bf17424b25cd84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 18/58] fix: wait for the steps of a database canary before
 deciding its outcome

---
 lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts   | 2 +-
 .../src/aws/infra/canaries/database-checker.ts                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
index 67046ad..af08ab1 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
@@ -22,5 +22,5 @@ declare module "Synthetics" {
     s: string,
     f: () => void,
     c: Record<string, boolean>,
-  ): void;
+  ): void | Promise<void>;
 }
diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index 9908ddf..1dc84bf 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -147,7 +147,7 @@ export class DatabaseCountChecker {
           check.check(value);
         };
 
-        synthetics.executeStep(check.name, checkFunction, stepConfig);
+        await synthetics.executeStep(check.name, checkFunction, stepConfig);
       }
     });
 
-- 
2.43.0


From 9fbf0c02c5a5b51d4c5dd3765244abccc6ea3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 19/58] fix: keep a dead letter in the queue when it could not
 be stored

---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..a6e5f6a 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,13 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // the message must not be acknowledged
+    throw error;
   }
 }
 
-- 
2.43.0


From 547208e4fc5f3e58068d95752f132672edabc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 20/58] fix: apply the whitelist of the stack checks only to
 matching resources

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From 719528477556f4bedb31dbade3f09d45f2072c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 21/58] fix: quote the message of the missing token response

---
 lib/digitraffic-common/src/aws/infra/stack/rest-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
index f3c3cf4..aaa832f 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
@@ -319,7 +319,7 @@ export function setReturnCodeForMissingAuthenticationToken(
       type: ResponseType.MISSING_AUTHENTICATION_TOKEN,
       statusCode: `${returnCode}`,
       templates: {
-        [MediaType.APPLICATION_JSON]: `{"message": ${message}}`,
+        [MediaType.APPLICATION_JSON]: JSON.stringify({ message }),
       },
     },
   );
-- 
2.43.0


From 12399fbe84d587b4092516015850236aaaaecf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:19 +0000
Subject: [PATCH 22/58] fix: throttle clients with an empty digitraffic-user
 header as anonymous

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..977cd2f 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                -> size > 0
+  // header not present or empty   -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From e59cfbf5394c058f0f293ff0fa37d853b8250da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 23/58] fix: accept versions, digits and path parameters in the
 casing checks

---
 .../src/aws/infra/stack/stack-checking-aspect.ts     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 4032936..fc397f0 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -6,9 +6,10 @@ import { LogRetention } from "aws-cdk-lib/aws-logs";
 import { CfnBucket } from "aws-cdk-lib/aws-s3";
 import { CfnQueue } from "aws-cdk-lib/aws-sqs";
 import type { IConstruct } from "constructs";
-import { kebabCase, snakeCase } from "es-toolkit";
 import { DigitrafficStack, SOLUTION_KEY } from "./stack.js";
 
+const KEBAB_CASE = /^[a-z0-9]+(-[a-z0-9]+)*$/;
+const SNAKE_CASE = /^[a-z0-9]+(_[a-z0-9]+)*$/;
 const MAX_CONCURRENCY_LIMIT = 100;
 const ALLOWED_RUNTIMES = [
   Runtime.NODEJS_24_X.name,
@@ -208,15 +209,20 @@ export class StackCheckingAspect implements IAspect {
       return StackCheckingAspect.isValidPath(path.split(".")[0]);
     }
 
+    // a plain path parameter has nothing to check
+    if (path.startsWith("{")) {
+      return true;
+    }
+
     if (path.includes("{")) {
       return StackCheckingAspect.isValidPath(path.split("{")[0]);
     }
 
-    return kebabCase(path) === path;
+    return KEBAB_CASE.test(path);
   }
 
   private static isValidQueryString(name: string): boolean {
-    return snakeCase(name) === name;
+    return SNAKE_CASE.test(name);
   }
 
   private checkResourceCasing(node: IConstruct): void {
-- 
2.43.0


From 163797f1dff9d953ad9194f65f8cb0a88ea1814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:57 +0000
Subject: [PATCH 24/58] fix: deprecate documentation parts that have no summary

---
 lib/digitraffic-common/src/aws/infra/documentation.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/documentation.ts b/lib/digitraffic-common/src/aws/infra/documentation.ts
index 12e39ad..e3b49cc 100644
--- a/lib/digitraffic-common/src/aws/infra/documentation.ts
+++ b/lib/digitraffic-common/src/aws/infra/documentation.ts
@@ -116,7 +116,10 @@ export class DocumentationPart {
   deprecated(note: string): this {
     // deprecated is not supported ATM: https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-known-issues.html
     this.documentationProperties.deprecated = true;
-    this.documentationProperties.summary += `. ${note}`;
+    const summary = this.documentationProperties.summary;
+    this.documentationProperties.summary = summary
+      ? `${summary}. ${note}`
+      : note;
 
     return this;
   }
-- 
2.43.0


From c06bdf3b296d30a3c1443ad8815565d97c20bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 25/58] fix: a malformed message no longer fails the other port
 activity messages of its batch

---
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 3b5fb27acf991dd0bc45a7c1e8229aa4343e1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 26/58] fix: a VTS estimate an hour or more before the Awake.AI
 estimate is discarded like a later one

---
 marine/portactivity/src/event-sourceutil.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/event-sourceutil.ts b/marine/portactivity/src/event-sourceutil.ts
index ffd7f11..9fe1bff 100644
--- a/marine/portactivity/src/event-sourceutil.ts
+++ b/marine/portactivity/src/event-sourceutil.ts
@@ -143,11 +143,16 @@ export function mergeTimestamps(ts: unknown[]): unknown[] {
           VTS_TIMESTAMP_TOO_OLD_MINUTES,
         ) ||
         (awakeTimestamp &&
-          datesDifferByMinutes(
+          (datesDifferByMinutes(
             parseISO(vtsTimestamp.eventTime),
             parseISO(awakeTimestamp.eventTime),
             VTS_TIMESTAMP_DIFF_MINUTES,
-          ))
+          ) ||
+            datesDifferByMinutes(
+              parseISO(awakeTimestamp.eventTime),
+              parseISO(vtsTimestamp.eventTime),
+              VTS_TIMESTAMP_DIFF_MINUTES,
+            )))
       ) {
         // remove only VTS timestamp
         addToList = addToList.filter((t) => !isEqual(t, vtsTimestamp));
-- 
2.43.0


From 6f1fb5bb2f63519c882f62d84afc99f6583a033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 27/58] fix: the ship list covers four days by default instead
 of four hours

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..d3c8602 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -81,7 +81,7 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(parameters.interval ?? "96", 10);
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From d72c0fcd67163d914671182a16ef663e6f38284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:07 +0000
Subject: [PATCH 28/58] fix: a ship name cannot end the script element of the
 ship list page

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index d3c8602..a2f1c1f 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -232,7 +232,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${JSON.stringify(shiplist).replaceAll("<", "\\u003c")};
 
     var currentDate = new Date();
 
-- 
2.43.0


From ea6b795657069e888187fe36b9959818ccab69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 29/58] fix: pilotages are recorded in one transaction with the
 removal and sending of their timestamps

---
 marine/portactivity/src/dao/pilotages.ts      |  8 +++++---
 .../update-timestamps-from-pilotweb.ts        |  9 +++++----
 marine/portactivity/src/service/pilotweb.ts   | 19 ++++++++++++-------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/marine/portactivity/src/dao/pilotages.ts b/marine/portactivity/src/dao/pilotages.ts
index a570408..2af0947 100644
--- a/marine/portactivity/src/dao/pilotages.ts
+++ b/marine/portactivity/src/dao/pilotages.ts
@@ -117,7 +117,9 @@ export async function findPortCallId(
   return undefined;
 }
 
-export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
+export async function getTimestamps(
+  db: DTDatabase | DTTransaction,
+): Promise<TimestampMap> {
   const timestamps = await db.manyOrNone<DbPilotageTimestamp>(
     GET_ACTIVE_PILOTAGE_TIMESTAMPS_PS,
   );
@@ -131,7 +133,7 @@ export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
 }
 
 export function updatePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotages: Pilotage[],
 ): Promise<void> {
   if (pilotages.length > 0) {
@@ -163,7 +165,7 @@ export function updatePilotages(
 }
 
 export function deletePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotageIds: number[],
 ): Promise<number[]> {
   if (pilotageIds.length > 0) {
diff --git a/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts b/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
index d947b89..3072110 100644
--- a/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
+++ b/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
@@ -26,15 +26,16 @@ export const handler = (): Promise<void> =>
       const timestamps = await PilotwebService.getMessagesFromPilotweb(
         secret.url,
         secret.auth,
+        async (timestamps) => {
+          await Promise.all(
+            timestamps.map((ts) => sendMessage(ts, sqsQueueUrl)),
+          );
+        },
       );
       logger.info({
         method: "UpdatePilotwebTimestamps.handler",
         customTimestampsReceivedCount: timestamps.length,
       });
-
-      await Promise.allSettled(
-        timestamps.map((ts) => sendMessage(ts, sqsQueueUrl)),
-      );
     })
     .catch((error) => {
       logException(logger, error);
diff --git a/marine/portactivity/src/service/pilotweb.ts b/marine/portactivity/src/service/pilotweb.ts
index ecbb70d..1695858 100644
--- a/marine/portactivity/src/service/pilotweb.ts
+++ b/marine/portactivity/src/service/pilotweb.ts
@@ -3,7 +3,7 @@ import type {
   DTDatabase,
   DTTransaction,
 } from "@digitraffic/common/dist/database/database";
-import { inDatabase } from "@digitraffic/common/dist/database/database";
+import { inTransaction } from "@digitraffic/common/dist/database/database";
 import * as PilotwebAPI from "../api/pilotweb.js";
 import * as PilotagesDAO from "../dao/pilotages.js";
 import * as TimestampDAO from "../dao/timestamps.js";
@@ -16,6 +16,7 @@ import * as LocationConverter from "./location-converter.js";
 export async function getMessagesFromPilotweb(
   host: string,
   authHeader: string,
+  publish: (timestamps: ApiTimestamp[]) => Promise<void>,
 ): Promise<ApiTimestamp[]> {
   const message = await PilotwebAPI.getMessages(host, authHeader);
   const pilotages = JSON.parse(message) as Pilotage[];
@@ -25,7 +26,9 @@ export async function getMessagesFromPilotweb(
     customPilotagesReceivedCount: pilotages.length,
   });
 
-  return inDatabase(async (db: DTDatabase) => {
+  // A pilotage that has been recorded is not handled again until it changes, so
+  // it is recorded only together with the removal and publishing of timestamps.
+  return inTransaction(async (db: DTTransaction) => {
     const idMap = await PilotagesDAO.getTimestamps(db);
     const pilotageIds = await removeMissingPilotages(db, idMap, pilotages);
     const updated = await updateAllPilotages(db, idMap, pilotages);
@@ -41,12 +44,14 @@ export async function getMessagesFromPilotweb(
 
     await removeTimestamps(db, pilotageIds);
 
-    return convertUpdatedTimestamps(db, updated);
+    const timestamps = await convertUpdatedTimestamps(db, updated);
+    await publish(timestamps);
+    return timestamps;
   });
 }
 
 async function removeTimestamps(
-  db: DTDatabase,
+  db: DTTransaction,
   pilotageIds: number[],
 ): Promise<void> {
   if (pilotageIds.length > 0) {
@@ -65,7 +70,7 @@ async function removeTimestamps(
 }
 
 async function updateAllPilotages(
-  db: DTDatabase,
+  db: DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<Pilotage[]> {
@@ -82,7 +87,7 @@ async function updateAllPilotages(
 }
 
 async function removeMissingPilotages(
-  db: DTDatabase,
+  db: DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<number[]> {
@@ -99,7 +104,7 @@ async function removeMissingPilotages(
 }
 
 async function convertUpdatedTimestamps(
-  db: DTDatabase,
+  db: DTTransaction,
   newAndUpdated: Pilotage[],
 ): Promise<ApiTimestamp[]> {
   // Use db.tx() to handle multiple database queries properly
-- 
2.43.0


From 93d13e550e0f98ea34bbaabc0b7339048dc09caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:18 +0000
Subject: [PATCH 30/58] fix: a prediction without a time no longer loses the
 other predictions of its port

---
 marine/portactivity/src/service/awake-ai-eta-port.ts | 2 ++
 marine/portactivity/src/service/awake-ai-etd-port.ts | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/service/awake-ai-eta-port.ts b/marine/portactivity/src/service/awake-ai-eta-port.ts
index d86c855..4a6ebab 100644
--- a/marine/portactivity/src/service/awake-ai-eta-port.ts
+++ b/marine/portactivity/src/service/awake-ai-eta-port.ts
@@ -31,7 +31,9 @@ export class AwakeAiETAPortService {
   private validateArrivalTime(
     etaPrediction: AwakeAiVoyageEtaPrediction,
   ): boolean {
+    // a prediction without arrival time is ignored when it is converted
     if (
+      etaPrediction.arrivalTime &&
       isBefore(parseISO(etaPrediction.arrivalTime), addHours(Date.now(), 24))
     ) {
       logger.warn({
diff --git a/marine/portactivity/src/service/awake-ai-etd-port.ts b/marine/portactivity/src/service/awake-ai-etd-port.ts
index 9cd8407..344c63d 100644
--- a/marine/portactivity/src/service/awake-ai-etd-port.ts
+++ b/marine/portactivity/src/service/awake-ai-etd-port.ts
@@ -21,8 +21,9 @@ export class AwakeAiETDPortService {
     this.oAuthTokenApi = oAuthTokenApi;
   }
 
-  private departureTimeInThePast(date: string): boolean {
-    return isBefore(parseISO(date), Date.now());
+  private departureTimeInThePast(date: string | undefined): boolean {
+    // a prediction without departure time is ignored when it is converted
+    return !!date && isBefore(parseISO(date), Date.now());
   }
 
   async getAwakeAiTimestamps(locode: string): Promise<ApiTimestamp[]> {
-- 
2.43.0


From 43ce9f65f325399d116a83b4a90a28172ba430c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 31/58] fix: an empty schedules document no longer fails the
 whole schedules update

---
 marine/portactivity/src/service/schedules.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index 92b2866..b54bf28 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -65,7 +65,8 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return resp.schedules.schedule.flatMap((s) => {
+    // an empty document has no schedule elements
+    return (resp.schedules.schedule ?? []).flatMap((s) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
-- 
2.43.0


From dc84e4b347c16535d23fb296f10c9ed43a2eb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 32/58] fix: a removed counting site keeps its removal
 timestamp

---
 road/counting-site/src/service/update-service.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 169704c..3299be5 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -197,7 +197,10 @@ function compareSites(
   const dbSiteIdSet = new Set(sitesInDb.map((s) => s.id));
 
   const newSites = sitesInApi.filter((s) => !dbSiteIdSet.has(s.id));
-  const removedSites = sitesInDb.filter((s) => !apiSiteIdSet.has(s.id));
+  // sites that have already been marked as removed keep their removal timestamp
+  const removedSites = sitesInDb.filter(
+    (s) => !apiSiteIdSet.has(s.id) && !s.removed_timestamp,
+  );
   const updatedSites = sitesInApi.filter((s) => dbSiteIdSet.has(s.id));
 
   return [newSites, removedSites, updatedSites];
-- 
2.43.0


From 335955939e8cd1b1b5e0af2cb4bd2ddb5f1e951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 33/58] fix: the metadata of the counting sites is updated in
 one transaction

---
 road/counting-site/src/dao/site.ts            | 11 +++++---
 .../src/service/update-service.ts             | 26 ++++++++++---------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/road/counting-site/src/dao/site.ts b/road/counting-site/src/dao/site.ts
index fc73a57..70234a2 100644
--- a/road/counting-site/src/dao/site.ts
+++ b/road/counting-site/src/dao/site.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { FeatureCollection } from "geojson";
 import { sql } from "kysely";
 import { default as pgPromise } from "pg-promise";
@@ -83,7 +86,7 @@ export function getAllSites(
 }
 
 export async function addSites(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   domain: Domain,
   sites: ApiSite[],
 ): Promise<void> {
@@ -111,7 +114,7 @@ export async function addSites(
 }
 
 export async function removeSites(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   sites: DbSite[],
 ): Promise<void> {
   await Promise.all(
@@ -128,7 +131,7 @@ export async function removeSites(
 }
 
 export async function updateSites(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   sites: ApiSite[],
 ): Promise<void> {
   await Promise.all(
diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 3299be5..f270c65 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -47,18 +47,20 @@ export async function updateMetadata(
   );
 
   try {
-    return await inDatabase(async (db) => {
-      const updatedTimestamp = new Date();
-
-      await addSites(db, domain, newSites);
-      await removeSites(db, removedSites);
-      await updateSites(db, updatedSites);
-
-      await updateLastUpdated(
-        db,
-        DataType.COUNTING_SITES_METADATA_CHECK,
-        updatedTimestamp,
-      );
+    return await inDatabase((db) => {
+      return db.tx(async (tx) => {
+        const updatedTimestamp = new Date();
+
+        await addSites(tx, domain, newSites);
+        await removeSites(tx, removedSites);
+        await updateSites(tx, updatedSites);
+
+        await updateLastUpdated(
+          tx,
+          DataType.COUNTING_SITES_METADATA_CHECK,
+          updatedTimestamp,
+        );
+      });
     });
   } catch (e) {
     logger.debug(e);
-- 
2.43.0


From 61cecfe3d62d61040f037c2496356aa1d7fdd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 34/58] fix: counts of a site and the time up to which they are
 stored change together

---
 road/counting-site/src/dao/data.ts            |  7 +-
 road/counting-site/src/dao/site.ts            |  2 +-
 .../src/service/update-service.ts             | 71 ++++++++++---------
 3 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/road/counting-site/src/dao/data.ts b/road/counting-site/src/dao/data.ts
index 37aaa61..4733bd4 100644
--- a/road/counting-site/src/dao/data.ts
+++ b/road/counting-site/src/dao/data.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { ApiData } from "../model/v2/api-model.js";
 import type { DbCsvData, DbValues } from "../model/v2/db-model.js";
 import type { TravelMode } from "../model/v2/types.js";
@@ -124,7 +127,7 @@ export async function findCsvValuesForMonth(
 }
 
 export async function addSiteData(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   data: ApiData[],
 ): Promise<number> {
diff --git a/road/counting-site/src/dao/site.ts b/road/counting-site/src/dao/site.ts
index 70234a2..e939c2d 100644
--- a/road/counting-site/src/dao/site.ts
+++ b/road/counting-site/src/dao/site.ts
@@ -156,7 +156,7 @@ export async function updateSites(
 }
 
 export async function updateSiteTimestamp(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   timestamp: Date,
 ): Promise<void> {
diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index f270c65..2b2b236 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -126,46 +126,49 @@ export async function updateData(
             customUpdatedCount: data.length,
           });
 
-          const pointCount = await addSiteData(db, site.id, data);
-
-          if (pointCount === 0) {
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              message: "Skipping update, no values",
-              customSite: site.id,
-            });
-            if (
-              site.last_data_timestamp &&
-              site.last_data_timestamp < subDays(new Date(), 7)
-            ) {
-              // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
-              await updateSiteTimestamp(
-                db,
-                site.id,
-                addDays(site.last_data_timestamp, 1),
+          // data and timestamp must change together, as the next update starts from the timestamp
+          await db.tx(async (tx) => {
+            const pointCount = await addSiteData(tx, site.id, data);
+
+            if (pointCount === 0) {
+              logger.info({
+                method: "V2UpdateService.updateDataForDomain",
+                message: "Skipping update, no values",
+                customSite: site.id,
+              });
+              if (
+                site.last_data_timestamp &&
+                site.last_data_timestamp < subDays(new Date(), 7)
+              ) {
+                // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
+                await updateSiteTimestamp(
+                  tx,
+                  site.id,
+                  addDays(site.last_data_timestamp, 1),
+                );
+                logger.info({
+                  method: "V2UpdateService.updateDataForDomain",
+                  message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
+                  customSite: site.id,
+                  customPreviousLastDataTimestamp: site.last_data_timestamp,
+                });
+              }
+            } else {
+              const actualEndStamp = max(
+                data.flatMap((d) => d.data).map((p) => p.timestamp),
               );
+
               logger.info({
                 method: "V2UpdateService.updateDataForDomain",
-                message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
                 customSite: site.id,
-                customPreviousLastDataTimestamp: site.last_data_timestamp,
+                customObjectType: "point",
+                customUpdatedCount: pointCount,
+                customEndTime: actualEndStamp,
               });
+
+              await updateSiteTimestamp(tx, site.id, actualEndStamp);
             }
-          } else {
-            const actualEndStamp = max(
-              data.flatMap((d) => d.data).map((p) => p.timestamp),
-            );
-
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              customSite: site.id,
-              customObjectType: "point",
-              customUpdatedCount: pointCount,
-              customEndTime: actualEndStamp,
-            });
-
-            await updateSiteTimestamp(db, site.id, actualEndStamp);
-          }
+          });
         } else {
           logger.info({
             method: "V2UpdateService.updateDataForDomain",
-- 
2.43.0


From 24d78753e981bd99af3fd129ebc91c33fde12ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 35/58] fix: a failing counting site no longer stops the update
 of the others

---
 road/counting-site/src/service/update-service.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 2b2b236..ec4bfc6 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -90,7 +90,8 @@ export async function updateData(
   const sitesInDb = await getAllSitesFromDb(domain); // site_id -> counter
 
   return await inDatabase(async (db: DTDatabase) => {
-    await Promise.all(
+    // a failing site must not stop the update of the others
+    const results = await Promise.allSettled(
       sitesInDb.map(async (site: DbSite) => {
         if (site.removed_timestamp) {
           logger.info({
@@ -182,6 +183,11 @@ export async function updateData(
       }),
     );
 
+    const failed = results.find((result) => result.status === "rejected");
+    if (failed) {
+      throw failed.reason;
+    }
+
     await updateLastUpdated(db, DataType.COUNTING_SITES_DATA, new Date());
   });
 }
-- 
2.43.0


From d5f3ea2d6c20ac9f2e1e746e6d3610008095ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 36/58] fix: reading a situation without an end tag no longer
 loops forever

---
 road/data-upload/src/service/vs-datex2-223-parser.ts     | 5 +++++
 road/variable-signs/src/service/datex2-update-service.ts | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..85c2401 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,11 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("Situation without end tag");
+      }
+
       index = sitEndIndex;
 
       situations.push(
diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..00085f9 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -65,6 +65,11 @@ export function parseSituations(datex2: string): Situation[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("Situation without end tag");
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 81dbe1fae082c3b481b7d1360c5bb0e48a4015d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 37/58] fix: an upload that could not be stored is not answered
 with 200

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..17f71f7 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  INTERNAL_ERROR: "Internal error",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,12 @@ export const handler = async (
         method,
         error,
       });
+
+      // the sender has to know that the message was not stored
+      return {
+        statusCode: StatusCodes.INTERNAL_ERROR.statusCode,
+        body: ERRORS.INTERNAL_ERROR,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From 2d21c1bdce040b0ade6ea938b6dd23a3717c475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 38/58] fix: a variable sign message that was not stored is not
 marked as processed

---
 road/data-upload/src/service/variable-signs.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index e70b8e7..e4dade2 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -186,4 +186,12 @@ async function handleVariableSign(
     customUnknownCount: unknownCount,
     tookMs: Date.now() - started,
   });
+
+  const errorCount = error223Count + error35Count + error37Count;
+
+  if (errorCount > 0) {
+    throw new Error(
+      `Could not update ${errorCount} devices from data_id=${data.data_id}`,
+    );
+  }
 }
-- 
2.43.0


From c380d7f1924cbfd34daee7b10fa85f483bdb46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 39/58] fix: variable sign messages are processed in the order
 of their arrival

---
 .../data-upload/src/service/variable-signs.ts | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index e4dade2..24958ec 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -25,23 +25,23 @@ export async function handleVariableSignMessages(): Promise<void> {
       TYPES.VMS_DATEX2_METADATA_XML,
     ]);
 
-    await Promise.allSettled(
-      unhandled.map(async (data) => {
-        try {
-          await handleVariableSign(db, data);
-
-          await updateStatus(db, data.data_id, "PROCESSED");
-        } catch (error) {
-          logger.error({
-            method: "VariableSignsService.handleVariableSignMessages",
-            customDataId: data.data_id,
-            error,
-          });
-
-          await updateStatus(db, data.data_id, "FAILED");
-        }
-      }),
-    );
+    // one by one, in the order of arrival, so that an older message never
+    // overwrites a newer one
+    for (const data of unhandled) {
+      try {
+        await handleVariableSign(db, data);
+
+        await updateStatus(db, data.data_id, "PROCESSED");
+      } catch (error) {
+        logger.error({
+          method: "VariableSignsService.handleVariableSignMessages",
+          customDataId: data.data_id,
+          error,
+        });
+
+        await updateStatus(db, data.data_id, "FAILED");
+      }
+    }
   });
 }
 
-- 
2.43.0


From 15b03d7434fe84f2c4299cb3521916fad1ea0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:56 +0000
Subject: [PATCH 40/58] fix: a dollar sign in the data of a device no longer
 breaks the publication

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From 0db3b293c4cbcc30453ea484b2204d6951701d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:31 +0000
Subject: [PATCH 41/58] fix: a failed upload to S3 is not taken for a success

---
 lib/digitraffic-common/src/aws/runtime/s3.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/s3.ts b/lib/digitraffic-common/src/aws/runtime/s3.ts
index 531a8d3..9bfa613 100644
--- a/lib/digitraffic-common/src/aws/runtime/s3.ts
+++ b/lib/digitraffic-common/src/aws/runtime/s3.ts
@@ -20,10 +20,12 @@ export async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // the caller must not go on as if the object was stored
+    throw error;
   }
 }
-- 
2.43.0


From bd9f4b7583e66849bd5222791669d68e88147681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:31 +0000
Subject: [PATCH 42/58] fix: a maintenance tracking message that was not
 handled is not removed from the queue

---
 .../src/lambda/process-queue/process-queue.ts        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
index f5c7bfe..fd3bee2 100644
--- a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
+++ b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
@@ -29,9 +29,17 @@ function getRdsHolder(): RdsHolder {
   return rdsHolder;
 }
 
-export const handler: (
+export const handler = async (
   event: SQSEvent,
-) => Promise<PromiseSettledResult<void>[]> = handlerFn(sqsExtendedClient);
+): Promise<PromiseSettledResult<void>[]> => {
+  const results = await handlerFn(sqsExtendedClient)(event);
+  const failed = results.filter(({ status }) => status === "rejected").length;
+  if (failed > 0) {
+    // a message that was not handled must go back to the queue and finally to the dead letter queue
+    throw new Error(`Handling of ${failed} messages failed`);
+  }
+  return results;
+};
 
 export function handlerFn(
   sqsExtendedClient: ExtendedSqsClient,
-- 
2.43.0


From 99662e2390a332df4f9b9b8770e88f9b4cb2422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:06 +0000
Subject: [PATCH 43/58] fix: a change of tasks starts a new maintenance
 tracking of a machine also when the number of tasks stays the same

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 0ea5a1c9ccc1a9afd2016e95b3bf472c7a6e3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 44/58] fix: rami: store every dead letter, and leave the
 letters whose storing failed in the queue

---
 .../src/lambda/process-dlq/process-dlq.ts     | 49 ++++++++++++-------
 rail/rami/src/util/s3.ts                      |  1 +
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..2999513 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -7,6 +7,22 @@ import { uploadToS3 } from "../../util/s3.js";
 
 const bucketName = getEnvVariable(RamiEnvKeys.SQS_DLQ_BUCKET_NAME);
 
+/**
+ * Messages moved here by SQS after failing in the other queues are the original
+ * messages and not necessarily even JSON. Those are stored as they are.
+ */
+function parseDlqMessage(body: string): DlqMessage | undefined {
+  try {
+    const message = JSON.parse(body) as Partial<DlqMessage> | null;
+    return message?.messageType !== undefined && message.message !== undefined
+      ? (message as DlqMessage)
+      : undefined;
+  } catch (error) {
+    logException(logger, error);
+    return undefined;
+  }
+}
+
 interface DlqEvent {
   readonly Records: {
     readonly body: string;
@@ -23,25 +39,24 @@ export const handler = async (event: DlqEvent): Promise<void> => {
   const uploads = event.Records.map((e, idx: number) => {
     logger.debug(`event ${JSON.stringify(e)}`);
 
-    try {
-      const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
-        dlqMessage.message,
-      )}]`;
-      const folder = `${dlqMessage.messageType}/${new Date()
-        .toISOString()
-        .substring(0, 10)}`;
-      const fileName = `${folder}/message-${millis}-${idx}.json`;
-
-      logger.debug(`Uploading to ${fileName}`);
+    const dlqMessage = parseDlqMessage(e.body);
+    const body = dlqMessage
+      ? JSON.stringify([{ errors: dlqMessage.errors }, dlqMessage.message])
+      : e.body;
+    const folder = `${dlqMessage?.messageType ?? "UNPROCESSED"}/${new Date()
+      .toISOString()
+      .substring(0, 10)}`;
+    const fileName = `${folder}/message-${millis}-${idx}.json`;
 
-      return uploadToS3(bucketName, body, fileName);
-    } catch (error) {
-      logException(logger, error);
+    logger.debug(`Uploading to ${fileName}`);
 
-      return Promise.resolve();
-    }
+    return uploadToS3(bucketName, body, fileName);
   });
 
-  await Promise.allSettled(uploads);
+  const results = await Promise.allSettled(uploads);
+  const failed = results.find((r) => r.status === "rejected");
+  if (failed) {
+    // leave the messages in the queue
+    throw failed.reason;
+  }
 };
diff --git a/rail/rami/src/util/s3.ts b/rail/rami/src/util/s3.ts
index ba1af78..07a8bd7 100644
--- a/rail/rami/src/util/s3.ts
+++ b/rail/rami/src/util/s3.ts
@@ -22,6 +22,7 @@ export async function uploadToS3(
         method: "RAMI-ProcessDLQ.uploadToS3",
         message: `upload failed, retrying upload to bucket ${bucketName}`,
       });
+      throw _error2;
     }
   }
 }
-- 
2.43.0


From ca5a795e7c96f378bfa1a58296c4fcf200550e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 45/58] fix: rami: leave stop monitoring messages whose
 processing failed in the queue

---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..40fdb27 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,8 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+            // leave the message in the queue
+            throw error;
           }
         }),
       );
-- 
2.43.0


From 40d6b0f3778fe33f9e0fb9d7dcdc707fd1a400da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 46/58] fix: rami: send ROSM messages that can't be parsed to
 the dead letter queue

---
 .../src/lambda/process-rosm-queue/process-rosm-queue.ts    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
index 79d2ab8..8339993 100644
--- a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
+++ b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
@@ -37,6 +37,13 @@ export function handlerFn(): (
 
             return Promise.reject(error);
           }
+        } else {
+          // send invalid message to dlq
+          await sendDlq({
+            messageType: "ROSM",
+            errors: "could not parse ROSM message",
+            message: recordBody,
+          });
         }
         logger.info({
           method: "RAMI-ProcessRosmQueue.handler",
-- 
2.43.0


From 4919099a2f5ce0a49d4fcda220f9257f452dd21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 47/58] fix: rami: release the database connection also when a
 query or starting a transaction fails

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From 358e222b299b987fd589e32a2511bd7ec5c423ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 48/58] fix: rami: keep the seconds of the times of messages

---
 rail/rami/src/dao/message.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..16394c9 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -1,12 +1,11 @@
-import {
-  dateToUTCString,
-  MYSQL_DATETIME_FORMAT,
-} from "@digitraffic/common/dist/utils/date-utils";
+import { dateToUTCString } from "@digitraffic/common/dist/utils/date-utils";
 import type { Connection } from "mysql2/promise.js";
 import type { DtRosmMessage } from "../model/dt-rami-message.js";
 import { inDatabase, inTransaction } from "../util/database.js";
 import { mapDaysToBits } from "../util/weekdays.js";
 
+const MYSQL_DATETIME_FORMAT = "yyyy-MM-dd HH:mm:ss";
+
 export interface DbRamiAudio {
   readonly text_fi: string | null;
   readonly text_sv: string | null;
-- 
2.43.0


From 3963d6f8c8c0c9c50c72897d880adae7faaeb9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 49/58] fix: rami: show the delivery time of audio messages

---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 16394c9..b75309d 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -75,7 +75,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -174,7 +174,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..20b429e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,8 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt:
+              message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From 47bbcf95feefb4ed528d58199efadda08ed05fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 50/58] fix: rami: don't go on with a transaction MySQL has
 rolled back after a deadlock

---
 rail/rami/src/dao/udot.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rail/rami/src/dao/udot.ts b/rail/rami/src/dao/udot.ts
index 17dacdb..8d8cca7 100644
--- a/rail/rami/src/dao/udot.ts
+++ b/rail/rami/src/dao/udot.ts
@@ -97,6 +97,10 @@ export async function insertOrUpdate(
   }
 }
 
+function isDeadlock(error: unknown): boolean {
+  return (error as { code?: unknown } | undefined)?.code === "ER_LOCK_DEADLOCK";
+}
+
 async function executeWithRetry<T extends QueryResult>(
   conn: Connection,
   sql: string,
@@ -119,6 +123,10 @@ async function executeWithRetry<T extends QueryResult>(
         customAttapId: values.attapId,
         error: err,
       });
+      if (isDeadlock(err)) {
+        // MySQL has rolled back the whole transaction, it can't be continued
+        throw err;
+      }
       if (i < retries - 1) {
         // Wait only if we will retry again
         await new Promise((resolve) => setTimeout(resolve, 50));
-- 
2.43.0


From 08a9ab9d0cf39861615511d0dfa229a466599f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 51/58] fix: winter-navigation: update and restore also the
 locations of port suspensions

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 33d871cb6cd97aea1b0f738b49189f965fb576ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 52/58] fix: winter-navigation: don't take vessels without IMO
 or MMSI for each other

---
 marine/winter-navigation/src/service/vessel-service.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marine/winter-navigation/src/service/vessel-service.ts b/marine/winter-navigation/src/service/vessel-service.ts
index 31a3b10..f9fddf8 100644
--- a/marine/winter-navigation/src/service/vessel-service.ts
+++ b/marine/winter-navigation/src/service/vessel-service.ts
@@ -80,9 +80,9 @@ function convertVessel(v: VesselDTO, lastUpdated?: Date): Vessel {
 }
 
 function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
-  const isIcebreaker =
-    v.mmsi === a.icebreaker_mmsi || v.imo === a.icebreaker_imo;
-  const isVessel = v.mmsi === a.vessel_mmsi || v.imo === a.vessel_imo;
+  // imo and mmsi may be missing from the vessels, so they can't be used to identify them
+  const isVessel = v.id === a.vessel_id;
+  const isIcebreaker = !isVessel;
   const baseActivity = {
     type: a.type,
     reason: a.reason ?? null,
@@ -120,8 +120,8 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
 }
 
 function convertQueue(q: QueueDTO, v: VesselDTO): PlannedAssistance {
-  const isIcebreaker =
-    v.mmsi === q.icebreaker_mmsi || v.imo === q.icebreaker_imo;
+  // imo and mmsi may be missing from the vessels, so they can't be used to identify them
+  const isIcebreaker = v.id !== q.vessel_id;
 
   const baseAssistance = {
     queuePosition: q.order_num,
-- 
2.43.0


From 6a430b7e20b2dcc21d18f0ce7829d6bae7deac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:57 +0000
Subject: [PATCH 53/58] fix: winter-navigation: don't tell that data was
 checked when it could not be fetched

---
 marine/winter-navigation/src/api/ibnet-api.ts        | 11 +++++++++--
 marine/winter-navigation/src/service/data-updater.ts |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/marine/winter-navigation/src/api/ibnet-api.ts b/marine/winter-navigation/src/api/ibnet-api.ts
index bb79537..5c02670 100644
--- a/marine/winter-navigation/src/api/ibnet-api.ts
+++ b/marine/winter-navigation/src/api/ibnet-api.ts
@@ -55,7 +55,14 @@ export class IbnetApi {
       });
   }
 
-  async fetch<T>(path: ApiPath, from: number, to: number): Promise<T[]> {
+  /**
+   * @returns changed objects or undefined, if they could not be fetched
+   */
+  async fetch<T>(
+    path: ApiPath,
+    from: number,
+    to: number,
+  ): Promise<T[] | undefined> {
     const start = Date.now();
     const url = `${this._baseUrl}${path}?from=${from}&to=${to}`;
 
@@ -64,7 +71,7 @@ export class IbnetApi {
     } catch (error) {
       logException(logger, error);
 
-      return [];
+      return undefined;
     } finally {
       logger.info({
         method: "IbnetApi.fetch",
diff --git a/marine/winter-navigation/src/service/data-updater.ts b/marine/winter-navigation/src/service/data-updater.ts
index 2ca1f1e..a74e940 100644
--- a/marine/winter-navigation/src/service/data-updater.ts
+++ b/marine/winter-navigation/src/service/data-updater.ts
@@ -102,6 +102,12 @@ export class DataUpdater {
     }
 
     const objects = await this._api.fetch<T>(apiPath, from, to);
+
+    // nothing was checked, so the old check timestamp is still the right one
+    if (!objects) {
+      return;
+    }
+
     const deleted: Deleted[] = [];
     const updated: T[] = [];
 
-- 
2.43.0


From 3dae3281c6f70106b810a9f92c056a5b52f178d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:32 +0000
Subject: [PATCH 54/58] fix: winter-navigation: don't show a deleted vessel, or
 fail because of one

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..22e294c 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE deleted = false AND (imo = $3 OR mmsi = $3)
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From 392c675cac78910676b6f6a8d27adc6a918989c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:52 +0000
Subject: [PATCH 55/58] fix: a maintenance update of the status page that fails
 to be triggered is tried again

---
 other/status/src/service/maintenance-service.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/other/status/src/service/maintenance-service.ts b/other/status/src/service/maintenance-service.ts
index 093a2d9..d2139e4 100644
--- a/other/status/src/service/maintenance-service.ts
+++ b/other/status/src/service/maintenance-service.ts
@@ -31,6 +31,9 @@ export async function handleMaintenance(
       method: method,
       message: `Active maintenances found, disabling ${enabledChecksCount} NodePing checks`,
     });
+    // Triggered before the checks are disabled: if it fails, the checks are still enabled and the next run tries again
+    await cStateApi.triggerUpdateMaintenanceGithubAction(activeMaintenance);
+
     await nodePingApi.disableNodePingChecks();
     const checksToDisable = JSON.stringify(enabledChecks.map((c) => c.label));
 
@@ -39,8 +42,6 @@ export async function handleMaintenance(
       message: `NodePing checks disabled ${enabledChecksCount}, maintenance has started!\nDisabled: ${checksToDisable}`,
     });
 
-    await cStateApi.triggerUpdateMaintenanceGithubAction(activeMaintenance);
-
     await slackNotifyApi.notify(
       `NodePing checks disabled ${enabledChecksCount} and cStateStatus maintenance triggered. Maintenance has started!`,
     );
-- 
2.43.0


From fb9abe74756a382575b94be5923521b222ae19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:52 +0000
Subject: [PATCH 56/58] fix: the content type of a check that sends data is not
 sent by the other checks

---
 other/status/src/api/nodeping-api.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index fc62ce3..c25ff1a 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -370,7 +370,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       enabled: true,
       follow: true,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       method: checkMethod,
       notifications: this.createNotificationsPostData(contactIds),
     };
@@ -434,7 +434,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       method: checkMethod,
       interval: this.checkIntervalMinutes,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       notifications: this.createNotificationsPostData(contactIds),
     } as const satisfies NodePingCheckPutData;
 
-- 
2.43.0


From c409b46419856dafa6cdf664ac30bf0fd13c3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:52 +0000
Subject: [PATCH 57/58] fix: the check of an endpoint named without its app
 follows the address of the endpoint

---
 other/status/src/service/status-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index dbd5778..7c26dbe 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -260,7 +260,8 @@ export async function updateChecks(
     const correspondingExtraEndpoint = extraEndpoints.find(
       (e) =>
         e.url === check.parameters.target ||
-        e.name.toLowerCase() === check.label.toLowerCase(),
+        e.name.toLowerCase() === check.label.toLowerCase() ||
+        `${app} ${e.name}`.toLowerCase() === check.label.toLowerCase(),
     );
 
     const checksContactIds = getContactIds(
-- 
2.43.0


From b2bb81c9a44755a79fb3b7517fd5a695eff23c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:52 +0000
Subject: [PATCH 58/58] fix: components of the same name of different apps are
 not mixed up

---
 other/status/src/service/status-service.ts | 46 +++++++++++++++-------
 other/status/src/service/utils.ts          | 12 ++++++
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index 7c26dbe..c9a8c93 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -14,7 +14,7 @@ import type {
 import type { MonitoredApp, MonitoredEndpoint } from "../app-props.js";
 import type { AppWithEndpoints } from "../model/app-with-endpoints.js";
 import type { UpdateStatusSecret } from "../secret.js";
-import { removeAppAndTrim, removeTrailingSlash } from "./utils.js";
+import { getApp, removeAppAndTrim, removeTrailingSlash } from "./utils.js";
 
 const SERVICE = "StatusService" as const;
 const BETA = "beta" as const;
@@ -27,34 +27,30 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
   const cStateStatus = await cStateStatuspageApi.getStatus();
   const cStateMaintenanceOn = await cStateStatuspageApi.isActiveMaintenances();
 
-  const nodePingCheckMap: Record<string, NodePingCheck> = {};
-  for (const npc of nodePingChecks) {
-    nodePingCheckMap[convertToCstateNameWithoutApp(npc.label).toLowerCase()] =
-      npc;
-  }
-
-  const cStateSystemsMap: Record<string, CStateSystem> = {};
-  for (const system of cStateStatus.systems) {
-    cStateSystemsMap[convertToCstateNameWithoutApp(system.name)] = system;
-  }
+  const findNodePingCheck = (system: CStateSystem): NodePingCheck | undefined =>
+    findByComponentName(system.name, nodePingChecks, (npc) => npc.label);
 
   const missingCStateSystems = nodePingChecks
     .filter((npc) => !isBeta(npc.label))
     .filter(
-      (npc) => !(convertToCstateNameWithoutApp(npc.label) in cStateSystemsMap),
+      (npc) =>
+        !findByComponentName(
+          npc.label,
+          cStateStatus.systems,
+          (system) => system.name,
+        ),
     )
     .map((npc) => `${npc.label}: cState Statuspage system missing`);
 
   const missingNodePingChecksVsCState = cStateStatus.systems
-    .filter((sc) => !(removeAppAndTrim(sc.name) in nodePingCheckMap))
+    .filter((sc) => !findNodePingCheck(sc))
     .map((sc) => `${sc.name}: NodePing check missing`);
 
   const outOfSyncWithCStateStatusPage = cStateMaintenanceOn
     ? []
     : cStateStatus.systems
         .map((cStateSystem) => {
-          const nodePingCheck =
-            nodePingCheckMap[convertToCstateNameWithoutApp(cStateSystem.name)];
+          const nodePingCheck = findNodePingCheck(cStateSystem);
           if (!nodePingCheck) {
             return null;
           }
@@ -75,6 +71,26 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
     .concat(outOfSyncWithCStateStatusPage);
 }
 
+/**
+ * Apps may have components with the same name, ie. Rail Swagger UI and Road Swagger UI.
+ * The app is compared only when both of the names have one.
+ */
+function findByComponentName<T>(
+  name: string,
+  candidates: T[],
+  nameOf: (candidate: T) => string,
+): T | undefined {
+  const app = getApp(name);
+  const nameWithoutApp = convertToCstateNameWithoutApp(name);
+  const sameNames = candidates.filter(
+    (c) => convertToCstateNameWithoutApp(nameOf(c)) === nameWithoutApp,
+  );
+  return (
+    sameNames.find((c) => getApp(nameOf(c)) === app) ??
+    sameNames.find((c) => !app || !getApp(nameOf(c)))
+  );
+}
+
 /**
  * Statuspage labels:
  * Rail Swagger -> /swagger
diff --git a/other/status/src/service/utils.ts b/other/status/src/service/utils.ts
index 6d39233..e008621 100644
--- a/other/status/src/service/utils.ts
+++ b/other/status/src/service/utils.ts
@@ -23,6 +23,18 @@ export function removeAppAndTrim(text: string): string {
   return text.trim();
 }
 
+/**
+ * Returns the app that the given name starts with, if there is one
+ */
+export function getApp(text: string): TrafficType | undefined {
+  const name = text.toLowerCase();
+  return Object.values(TrafficType).find(
+    (app) =>
+      name.startsWith(app.toLowerCase()) ||
+      name.startsWith(`/${app.toLowerCase()}`),
+  );
+}
+
 export function removeTrailingSlash(text: string): string {
   return text.endsWith("/") ? text.slice(0, -1) : text;
 }
-- 
2.43.0


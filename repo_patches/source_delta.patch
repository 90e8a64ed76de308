From 0ebf2716ed2a22497125858fbc5024c86e40fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 01/35] fix: a channel is not open before its first fork is
 known

Blocks and confirmations that arrive before the genesis event were treated
as coming from a non-participant and dropped; they are now queued until the
genesis is set.
---
 src/agreementManager/AgreementManager.ts | 4 ++++
 src/stateManager/StateManager.ts         | 2 +-
 src/stateManager/ValidationService.ts    | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 83dee02..8ef4164 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -92,6 +92,10 @@ class AgreementManager {
     public getNextBlockHeight(): number {
         return this.forkService.getNextBlockHeight();
     }
+    // False until the first fork (genesis) is known
+    public hasFork(): boolean {
+        return this.forkService.getLatestFork() !== undefined;
+    }
     public getBlock(
         forkCnt: number,
         transactionCnt: number
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab76248..ab68a1f 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -598,7 +598,7 @@ class StateManager {
     // ----- Private validation helper methods -----
 
     private isChannelOpen(): boolean {
-        return this.getForkCnt() !== -1;
+        return this.agreementManager.hasFork();
     }
 }
 
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index dd8f32f..a0e6bba 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -248,7 +248,7 @@ export default class ValidationService {
         return this.agreementManager.getLatestForkCnt();
     }
     private isChannelOpen(): boolean {
-        return this.getForkCnt() >= 0;
+        return this.agreementManager.hasFork();
     }
     private isPastFork(f: number): boolean {
         return f < this.getForkCnt();
-- 
2.43.0


From ab9ac436fbb3429a1a2d5b77587400e7ddd6c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 02/35] fix: a bad peer message or a failing connection cannot
 disturb the node

A message whose validation throws was still processed as a success (crashing
in confirmBlock and leaving the mutex locked), rejected handlers became
unhandled rejections, queued confirmations threw on an unbound method, and one
failing connection stopped a broadcast to the others.
---
 src/P2PManager.ts                             |  13 +-
 src/rpc/MainRpcService.ts                     |  22 ++--
 src/stateManager/StateManager.ts              | 116 ++++++++----------
 .../processConfirmationDecisionHandlers.ts    |   2 +-
 4 files changed, 76 insertions(+), 77 deletions(-)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 210c330..75b92a8 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -50,7 +50,11 @@ class P2PManager implements IOnMessage {
     public broadcastRpc(serializedRPC: string) {
         // BroadcastLocal.broadcast(serializedRPC);
         for (let transport of this.openConnections) {
-            transport.send(serializedRPC);
+            try {
+                transport.send(serializedRPC);
+            } catch (e) {
+                console.error("broadcastRpc - send failed", e);
+            }
         }
     }
     public onRpc(serializedRpc: string) {
@@ -65,7 +69,12 @@ class P2PManager implements IOnMessage {
                 return;
             }
             //TODO! set context - calling socket/profile (ATransport)!
-            this.localRpcService[rpc.method](...rpc.params);
+            Promise.resolve(
+                this.localRpcService[rpc.method](...rpc.params)
+            ).catch((e) => {
+                //TODO - disconnect from peer
+                console.error(e);
+            });
         } catch (e) {
             //TODO - disconnect from peer
             console.error(e);
diff --git a/src/rpc/MainRpcService.ts b/src/rpc/MainRpcService.ts
index bf715a8..29c4b1b 100644
--- a/src/rpc/MainRpcService.ts
+++ b/src/rpc/MainRpcService.ts
@@ -51,7 +51,7 @@ class MainRpcService {
     // ********************* InitHandskaheService *********************
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
-        this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
+        await this.initHandshakeService.onInitHandshakeRequest(challengeHash, time);
     }
 
     public async onInitHandshakeResponse(
@@ -59,7 +59,7 @@ class MainRpcService {
         responseTime: number,
         preferredTransport: TransportType
     ) {
-        this.initHandshakeService.onInitHandshakeResponse(
+        await this.initHandshakeService.onInitHandshakeResponse(
             signature,
             responseTime,
             preferredTransport
@@ -68,33 +68,33 @@ class MainRpcService {
 
     // ********************* WebRTCSetupService *********************
     public async onOfferWebRTC(offer: string) {
-        this.webRTCSetunService.onOfferWebRTC(offer);
+        await this.webRTCSetunService.onOfferWebRTC(offer);
     }
 
     public async onAnswerWebRTC(answer: string) {
-        this.webRTCSetunService.onAnswerWebRTC(answer);
+        await this.webRTCSetunService.onAnswerWebRTC(answer);
     }
 
     public async onIceCandidate(serializedCandidate: string) {
-        this.webRTCSetunService.onIceCandidate(serializedCandidate);
+        await this.webRTCSetunService.onIceCandidate(serializedCandidate);
     }
 
     // ********************* TESTJoinChannelService - TODO! TEST this is only for test *********************
     public async onSignJoinChannelTEST(jcEncoded: string, jcSignature: string) {
-        this.testJoinChannelService.onSignJoinChannelTEST(
+        await this.testJoinChannelService.onSignJoinChannelTEST(
             jcEncoded,
             jcSignature
         );
     }
     // ********************* DHTDiscoveryService - DHT discovery, common topic, leader introduction to specific channelID *********************
     public async onCanJoinLeaderRequest() {
-        this.dhtDiscoveryService.onCanJoinLeaderRequest();
+        await this.dhtDiscoveryService.onCanJoinLeaderRequest();
     }
     public async onCanJoinLeaderResponse(
         channelId: BytesLike,
         participants: AddressLike[]
     ) {
-        this.dhtDiscoveryService.onCanJoinLeaderResponse(
+        await this.dhtDiscoveryService.onCanJoinLeaderResponse(
             channelId,
             participants
         );
@@ -104,7 +104,7 @@ class MainRpcService {
         signedJoinChannel: SignedJoinChannelStruct,
         confirmationSignature?: SignatureLike
     ) {
-        this.joinChannelService.onJoinChannelRequest(
+        await this.joinChannelService.onJoinChannelRequest(
             signedJoinChannel,
             confirmationSignature
         );
@@ -112,14 +112,14 @@ class MainRpcService {
 
     // ********************* StateTransitionService *********************
     public async onSignedBlock(signedBlock: SignedBlockStruct) {
-        this.stateTransitionService.onSignedBlock(signedBlock);
+        await this.stateTransitionService.onSignedBlock(signedBlock);
     }
 
     public async onBlockConfirmation(
         originalSignedBlock: SignedBlockStruct,
         confirmationSignature: BytesLike
     ) {
-        this.stateTransitionService.onBlockConfirmation(
+        await this.stateTransitionService.onBlockConfirmation(
             originalSignedBlock,
             confirmationSignature
         );
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index ab68a1f..5307635 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -175,11 +175,15 @@ class StateManager {
 
         for (const signedBlock of signedBlocks) {
             console.log("tryExecuteFromQueue - executing");
-            if (
-                (await this.onSignedBlock(signedBlock)) ==
-                ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onSignedBlock(signedBlock)) ==
+                    ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryExecuteFromQueue - block rejected", e);
             }
         }
     }
@@ -191,13 +195,17 @@ class StateManager {
         );
 
         for (const confirmation of confirmations) {
-            if (
-                (await this.onBlockConfirmation(
-                    confirmation.originalSignedBlock,
-                    confirmation.confirmationSignature as string
-                )) == ExecutionFlags.DISPUTE
-            ) {
-                break;
+            try {
+                if (
+                    (await this.onBlockConfirmation(
+                        confirmation.originalSignedBlock,
+                        confirmation.confirmationSignature as string
+                    )) == ExecutionFlags.DISPUTE
+                ) {
+                    break;
+                }
+            } catch (e) {
+                console.error("tryConfirmFromQueue - rejected", e);
             }
         }
     }
@@ -231,37 +239,25 @@ class StateManager {
         signedBlock: SignedBlockStruct,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        // Default everything to SUCCESS + no AgreementFlag
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS;
-        let finalAgreementFlag: AgreementFlag | undefined = undefined;
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
+        await this.mutex.lock();
         try {
-            await this.mutex.lock();
             const result = await this.validationService.validateSignedBlock(
                 signedBlock,
                 decodedBlock
             );
 
-            finalExecutionFlag = result.flag;
-            finalAgreementFlag = result.agreementFlag;
-
-            return finalExecutionFlag;
-        } finally {
-            // Safety check: must have an execution flag
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onSignedBlock - Internal Error - flag undefined"
-                );
-            }
-
-            // Process the final decision
+            // Process the final decision - only for a completed validation
             await this.processExecutionDecision(
                 signedBlock,
-                finalExecutionFlag,
-                finalAgreementFlag
+                result.flag,
+                result.agreementFlag
             );
+
+            return result.flag;
+        } finally {
             this.mutex.unlock();
         }
     }
@@ -272,40 +268,29 @@ class StateManager {
         confirmationSignature: BytesLike,
         block?: BlockStruct
     ): Promise<ExecutionFlags> {
-        let finalExecutionFlag: ExecutionFlags = ExecutionFlags.SUCCESS; // Default to SUCCESS
         const decodedBlock =
             block ?? EvmUtils.decodeBlock(signedBlock.encodedBlock);
 
-        try {
-            const result =
-                await this.validationService.validateBlockConfirmation(
-                    signedBlock,
-                    confirmationSignature,
-                    decodedBlock
-                );
-            finalExecutionFlag = result.flag;
-
-            if (result.success) {
-                this.agreementManager.confirmBlock(
-                    decodedBlock,
-                    confirmationSignature as SignatureLike
-                );
-            }
-
-            return finalExecutionFlag;
-        } finally {
-            if (finalExecutionFlag === undefined) {
-                throw new Error(
-                    "StateManager - onBlockConfirmation - Internal Error - flag undefined"
-                );
-            }
+        const result = await this.validationService.validateBlockConfirmation(
+            signedBlock,
+            confirmationSignature,
+            decodedBlock
+        );
 
-            await this.processConfirmationDecision(
-                signedBlock,
-                confirmationSignature as SignatureLike,
-                finalExecutionFlag
+        if (result.success) {
+            this.agreementManager.confirmBlock(
+                decodedBlock,
+                confirmationSignature as SignatureLike
             );
         }
+
+        await this.processConfirmationDecision(
+            signedBlock,
+            confirmationSignature as SignatureLike,
+            result.flag
+        );
+
+        return result.flag;
     }
 
     //Aplies a transaction to the state machine and returns the encoded state with a success callback
@@ -485,9 +470,12 @@ class StateManager {
     private async onSuccessCommon() {
         // Immediately schedule a confirm/execute from queue on next tick
         scheduleTask(
-            () => {
-                this.tryConfirmFromQueue();
-                this.tryExecuteFromQueue();
+            async () => {
+                if (this.isDisposed) return;
+                await Promise.all([
+                    this.tryConfirmFromQueue(),
+                    this.tryExecuteFromQueue()
+                ]);
             },
             0,
             "queueProcessing"
@@ -546,7 +534,9 @@ class StateManager {
             isDisposed: this.isDisposed,
             tryConfirmFromQueue: this.tryConfirmFromQueue.bind(this),
             queueConfirmation:
-                this.agreementManager.queueConfirmation.bind(this)
+                this.agreementManager.queueConfirmation.bind(
+                    this.agreementManager
+                )
         };
 
         await processConfirmationDecision(
diff --git a/src/stateManager/processConfirmationDecisionHandlers.ts b/src/stateManager/processConfirmationDecisionHandlers.ts
index fdab7e9..1f69198 100644
--- a/src/stateManager/processConfirmationDecisionHandlers.ts
+++ b/src/stateManager/processConfirmationDecisionHandlers.ts
@@ -28,7 +28,7 @@ export const confirmationDecisionHandlers: Record<
     ) => {
         setTimeout(async () => {
             if (ctx.isDisposed) return;
-            ctx.tryConfirmFromQueue();
+            await ctx.tryConfirmFromQueue();
         }, 0);
     },
 
-- 
2.43.0


From 041d47f4d5ec7c4a851c12394b5546fa8062d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 03/35] fix: disputes without a timed out participant use the
 zero address

"0x00" is not an address, so every dispute based on a fraud proof failed to
encode and no fraud could be disputed.
---
 src/DisputeHandler.ts                 | 2 +-
 src/stateManager/StateManager.ts      | 4 ++--
 src/stateManager/ValidationService.ts | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index e2b34d7..5a5e4e8 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -13,7 +13,7 @@ import ProofManager from "./ProofManager";
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
-const NO_PARTICIPANT_TO_FOLD = "0x00";
+const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
 
 type ForkCnt = number;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 5307635..cad0979 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -147,7 +147,7 @@ class StateManager {
                 ]);
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
@@ -159,7 +159,7 @@ class StateManager {
                 );
             this.disputeHandler.createDispute(
                 block.transaction.header.forkCnt,
-                "0x00",
+                ethers.ZeroAddress,
                 0,
                 [disputeProof]
             );
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index a0e6bba..a52fe74 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -202,9 +202,11 @@ export default class ValidationService {
         );
         if (flag === ExecutionFlags.DISPUTE) {
             const proof = ProofManager.createBlockTooFarInFutureProof(signed);
-            this.disputeHandler.createDispute(this.getForkCnt(), "0x00", 0, [
-                proof
-            ]);
+            this.disputeHandler
+                .createDispute(this.getForkCnt(), ethers.ZeroAddress, 0, [
+                    proof
+                ])
+                .catch((e) => console.error("dispute failed", e));
         }
         return flag;
     }
-- 
2.43.0


From c6141042c07eae14107f40e2a2f7847512eac4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 04/35] fix: the incorrect data proof puts the prior block
 first and uses its state

---
 src/ProofManager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 47774df..600e34e 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -408,21 +408,21 @@ class ProofManager {
 
         const priorEncodedState = this.agreementManager.getEncodedState(
             forkCnt,
-            transactionCnt
+            transactionCnt - 1
         );
 
         if (!priorEncodedState) {
             throw new Error(
-                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt}`
+                `Prior encoded state not found for fork ${forkCnt}, transaction ${transactionCnt - 1}`
             );
         }
 
         return {
-            block1: incorrectBlockSigned,
-            block2: {
+            block1: {
                 encodedBlock: EvmUtils.encodeBlock(priorBlock),
                 signature: priorBlockOriginalSignature as string
             },
+            block2: incorrectBlockSigned,
             encodedState: priorEncodedState
         };
     }
-- 
2.43.0


From 376d33754b44d6db3e97a24b04bea30914ac1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 05/35] fix: dispute proofs are encoded with the contract's
 types

---
 src/ProofManager.ts   |  5 +++--
 src/types/disputes.ts | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 600e34e..7e69085 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -217,7 +217,7 @@ class ProofManager {
         const block = EvmUtils.decodeBlock(foldRechallengeProof.encodedBlock);
         const sameTransactionCnt =
             Number(block.transaction.header.transactionCnt) ===
-            dispute.foldedTransactionCnt;
+            Number(dispute.foldedTransactionCnt);
         const sameParticipant =
             block.transaction.header.participant ===
             dispute.timedoutParticipant;
@@ -305,7 +305,8 @@ class ProofManager {
         ) as dt.FoldPriorBlockProofStruct;
 
         return (
-            foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt &&
+            Number(foldPriorBlockProof.transactionCnt) <
+                Number(dispute.foldedTransactionCnt) &&
             dispute.timedoutParticipant !== ethers.ZeroAddress
         );
     }
diff --git a/src/types/disputes.ts b/src/types/disputes.ts
index bb79ad7..4039b69 100644
--- a/src/types/disputes.ts
+++ b/src/types/disputes.ts
@@ -1,7 +1,7 @@
 import { SignedBlockEthersType } from "./ethers";
 
 export const FoldRechallengeProofEthersType = `tuple(
-    string encodedBlock,
+    bytes encodedBlock,
     bytes[] signatures
     )`;
 
@@ -11,14 +11,14 @@ export const DoubleSignProofEthersType = `tuple(
 export const IncorrectDataProofEthersType = `tuple(
     ${SignedBlockEthersType} block1,
     ${SignedBlockEthersType} block2,
-    string encodedState
+    bytes encodedState
     )`;
 export const NewerStateProofEthersType = `tuple(
-    string encodedBlock,
-    string confirmationSignature
+    bytes encodedBlock,
+    bytes confirmationSignature
     )`;
 export const FoldPriorBlockProofEthersType = `tuple(
-    uint moveCnt
+    uint transactionCnt
     )`;
 export const BlockTooFarInFutureProofEthersType = `tuple(
     ${SignedBlockEthersType} block1
-- 
2.43.0


From e70fcdb68aeddf6a72b8e3654633906081bb49f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 06/35] fix: an outdated dispute is challenged with any newer
 block its poster signed

Only blocks authored by the poster counted, and never against a dispute that
posts no block at all.
---
 src/DisputeHandler.ts |  2 +-
 src/ProofManager.ts   | 37 +++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 5a5e4e8..8295d3f 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -333,7 +333,7 @@ class DisputeHandler {
     }
 
     private getLastTransactionCount(dispute: DisputeStruct): number {
-        if (dispute.virtualVotingBlocks.length === 0) return 0;
+        if (dispute.virtualVotingBlocks.length === 0) return -1; // no block posted
 
         // Extract from the last block
         const lastBlock = EvmUtils.decodeBlock(
diff --git a/src/ProofManager.ts b/src/ProofManager.ts
index 7e69085..5b5575f 100644
--- a/src/ProofManager.ts
+++ b/src/ProofManager.ts
@@ -1,4 +1,10 @@
-import { ethers, AddressLike, BigNumberish, BytesLike } from "ethers";
+import {
+    ethers,
+    AddressLike,
+    BigNumberish,
+    BytesLike,
+    SignatureLike
+} from "ethers";
 import * as dt from "@typechain-types/contracts/V1/DisputeTypes";
 import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { getEthersTypeForDisputeProof, ProofType } from "@/types/disputes";
@@ -271,26 +277,29 @@ class ProofManager {
 
         const block = EvmUtils.decodeBlock(newerStateProof.encodedBlock);
 
-        if (dispute.virtualVotingBlocks.length === 0) return false;
-
-        const latestBlock = EvmUtils.decodeBlock(
-            dispute.virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock
-        );
-
-        const latestTransactionCnt = Number(
-            latestBlock.transaction.header.transactionCnt
-        );
+        // -1 when the disputer posted no block (claims genesis as the latest)
+        const latestTransactionCnt =
+            dispute.virtualVotingBlocks.length === 0
+                ? -1
+                : Number(
+                      EvmUtils.decodeBlock(
+                          dispute.virtualVotingBlocks[
+                              dispute.virtualVotingBlocks.length - 1
+                          ].encodedBlock
+                      ).transaction.header.transactionCnt
+                  );
         const currentTransactionCnt = Number(
             block.transaction.header.transactionCnt
         );
 
         return (
             !dispute.slashedParticipants.includes(
-                block.transaction.header.participant
+                dispute.postedStateDisputer
             ) &&
-            block.transaction.header.participant ===
-                dispute.postedStateDisputer &&
+            EvmUtils.retrieveSignerAddressBlock(
+                block,
+                newerStateProof.confirmationSignature as SignatureLike
+            ) === dispute.postedStateDisputer &&
             currentTransactionCnt > latestTransactionCnt
         );
     }
-- 
2.43.0


From 6f9790068019e35bb925f539da0889bdfb49cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 07/35] fix: a challenge names the challenge count it responds
 to

The contract compares it with the current count, so every challenge reverted.
---
 src/DisputeHandler.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 8295d3f..dd4d85c 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -281,7 +281,7 @@ class DisputeHandler {
                 .challengeDispute(
                     this.channelId,
                     dispute.forkCnt,
-                    Number(dispute.challengeCnt) + 1,
+                    dispute.challengeCnt,
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-- 
2.43.0


From f8b6e14409c71b77389ecf9793eaf8ba2cdc379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 08/35] fix: a dispute that is not accepted does not disturb
 the channel

A dispute that lost a race or reverted ended as an unhandled rejection and left
the fork marked as disputed for good, so every later block was dropped.
---
 src/DisputeHandler.ts                         | 20 ++++++--
 src/StateChannelEventListener.ts              | 12 +++--
 src/agreementManager/OnChainTracker.ts        |  3 ++
 src/stateManager/StateManager.ts              | 47 +++++++++----------
 src/stateManager/ValidationService.ts         |  8 ++--
 .../processExecutionDecisionHandlers.ts       |  9 +++-
 6 files changed, 58 insertions(+), 41 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index dd4d85c..62f56aa 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -159,13 +159,14 @@ class DisputeHandler {
         this.setForkDisputed(forkCntNumber);
         proofs.forEach((proof) => this.addProof(forkCntNumber, proof));
         const _dispute = this.disputes.get(forkCntNumber);
+        let creationError: any;
         if (!_dispute) {
             await this.createNewDispute(
                 forkCnt,
                 foldedParticipant,
                 foldedTransactionCnt,
                 proofs
-            );
+            ).catch((error) => (creationError = error));
         }
 
         const newDispute = await this.stateChannelManagerContract.getDispute(
@@ -173,11 +174,19 @@ class DisputeHandler {
         );
         //TODO! check newDispute 0000 bytes
         if (newDispute.channelId == ethers.ZeroHash) {
+            if (creationError?.code === "CALL_EXCEPTION")
+                this.disputedForks.delete(forkCntNumber);
             throw new Error(
                 "DisputeHandler - createDispute - no dispute created"
             );
         }
-        await this.rechallengeRecursive(newDispute);
+        if (creationError && Number(newDispute.forkCnt) !== forkCntNumber) {
+            // rejected by the chain and nobody else disputed the fork -> it stays usable
+            if (creationError.code === "CALL_EXCEPTION")
+                this.disputedForks.delete(forkCntNumber);
+            throw creationError;
+        }
+        await this.rechallengeRecursive(newDispute, proofs.length > 0);
     }
 
     private async createNewDispute(
@@ -259,8 +268,11 @@ class DisputeHandler {
         return false;
     }
 
-    private async rechallengeRecursive(dispute: DisputeStruct): Promise<void> {
-        if (!this.updateDisputeIfNewer(dispute)) {
+    private async rechallengeRecursive(
+        dispute: DisputeStruct,
+        hasNewProofs: boolean = false
+    ): Promise<void> {
+        if (!this.updateDisputeIfNewer(dispute) && !hasNewProofs) {
             return; // Early return if we already have a newer dispute
         }
 
diff --git a/src/StateChannelEventListener.ts b/src/StateChannelEventListener.ts
index 618b59f..48faa87 100644
--- a/src/StateChannelEventListener.ts
+++ b/src/StateChannelEventListener.ts
@@ -75,10 +75,14 @@ class StateChannelEventListener {
                 this.p2pEventHooks.onPostedCalldata?.();
                 let signedBlock = logObj.args.signedBlock as SignedBlockStruct;
                 let timestamp = logObj.args.timestamp as BigNumberish;
-                await this.stateManager.collectOnChainBlock(
-                    signedBlock,
-                    timestamp
-                );
+                try {
+                    await this.stateManager.collectOnChainBlock(
+                        signedBlock,
+                        timestamp
+                    );
+                } catch (e) {
+                    console.error("collectOnChainBlock - ignored", e);
+                }
             }
         );
         // --------- DisputeUpdate event -------------
diff --git a/src/agreementManager/OnChainTracker.ts b/src/agreementManager/OnChainTracker.ts
index cd7ec3a..1fe1623 100644
--- a/src/agreementManager/OnChainTracker.ts
+++ b/src/agreementManager/OnChainTracker.ts
@@ -35,6 +35,9 @@ export default class OnChainTracker {
         const { forkCnt, height } = BlockUtils.getCoordinates(blk);
         const participant = BlockUtils.getBlockAuthor(blk);
 
+        // anyone can post a block for a fork that doesn't exist (yet)
+        if (!this.forks.isValidForkCnt(forkCnt)) return flag;
+
         if (!this.hasPosted(forkCnt, height, participant)) {
             this.forks.addChainBlock(forkCnt, height, participant, timestamp);
         }
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index cad0979..f1d4f92 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -13,10 +13,7 @@ import {
 import AgreementManager from "../agreementManager/AgreementManager";
 import { AgreementFlag, ExecutionFlags, TimeConfig } from "@/types";
 import { AStateChannelManagerProxy } from "@typechain-types";
-import {
-    ProofStruct,
-    DisputeStruct
-} from "@typechain-types/contracts/V1/DisputeTypes";
+import { DisputeStruct } from "@typechain-types/contracts/V1/DisputeTypes";
 import Clock from "@/Clock";
 import DisputeHandler from "@/DisputeHandler";
 import P2PManager from "@/P2PManager";
@@ -124,7 +121,9 @@ class StateManager {
     }
     //Triggered by the On-chain Event Listener when a dispute is emitted on-chain
     public onDisputeUpdate(dispute: DisputeStruct) {
-        this.disputeHandler.onDispute(dispute);
+        this.disputeHandler
+            .onDispute(dispute)
+            .catch((e) => console.error("onDisputeUpdate", e));
         this.p2pEventHooks.onDisputeUpdate?.(dispute);
     }
     //Triggered by the On-chain Event Listener when block calldata is posted on-chain
@@ -137,35 +136,21 @@ class StateManager {
             signedBlock,
             Number(timestamp)
         );
-        let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
-        let disputeProof: ProofStruct;
         if (flag == AgreementFlag.DOUBLE_SIGN) {
             console.log("StateManager - collectOnChainBlock - double sign");
-            disputeProof =
-                this.disputeHandler.proofManager.createDoubleSignProof([
-                    signedBlock
-                ]);
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
+            this.runDispute(() =>
+                this.disputeHandler.disputeDoubleSign([signedBlock])
             );
         } else if (flag == AgreementFlag.INCORRECT_DATA) {
             console.log("StateManager - collectOnChainBlock - incorrect data");
-            disputeProof =
-                this.disputeHandler.proofManager.createIncorrectDataProof(
-                    signedBlock
-                );
-            this.disputeHandler.createDispute(
-                block.transaction.header.forkCnt,
-                ethers.ZeroAddress,
-                0,
-                [disputeProof]
+            this.runDispute(() =>
+                this.disputeHandler.disputeIncorrectData(signedBlock)
             );
         }
         console.log("StateManager - collectOnChainBlock - done");
-        this.onSuccessCommon();
+        this.onSuccessCommon().catch((e) =>
+            console.error("collectOnChainBlock", e)
+        );
     }
     private async tryExecuteFromQueue() {
         let signedBlocks = this.agreementManager.tryDequeueBlocks(
@@ -397,6 +382,15 @@ class StateManager {
         return this.getEncodedState().then(ethers.keccak256);
     }
 
+    // Runs a dispute in the background - if it was not accepted (the fork is not disputed) the channel continues
+    private runDispute(dispute: () => Promise<void>): Promise<void> {
+        return dispute().catch(async (e) => {
+            console.error("StateManager - dispute failed", e);
+            if (this.isDisposed) return;
+            await this.onSuccessCommon();
+        });
+    }
+
     // Tries to timeout a participant by checking did the participant fail to transition the state within time - if successful -> creates a dispute
     private async tryTimeoutParticipant(
         forkCnt: number,
@@ -511,6 +505,7 @@ class StateManager {
             p2pManager: this.p2pManager,
             agreementManager: this.agreementManager,
             disputeHandler: this.disputeHandler,
+            runDispute: this.runDispute.bind(this),
             onSuccessCb: this.onSuccessCommon.bind(this),
             forkCount: this.getForkCnt()
         };
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index a52fe74..e7d95b2 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -55,11 +55,9 @@ export default class ValidationService {
             return disconnect();
 
         // Check fork status
-        if (
-            this.isPastFork(forkCnt) ||
-            this.disputeHandler.isForkDisputed(forkCnt)
-        )
-            return pastFork();
+        if (this.isPastFork(forkCnt)) return pastFork();
+        // kept until the dispute creates the next fork (or is not accepted)
+        if (this.disputeHandler.isForkDisputed(forkCnt)) return notReady();
 
         // Check for duplicate blocks
         if (this.agreementManager.isBlockDuplicate(blk)) return duplicate();
diff --git a/src/stateManager/processExecutionDecisionHandlers.ts b/src/stateManager/processExecutionDecisionHandlers.ts
index 117cb4e..69dbca4 100644
--- a/src/stateManager/processExecutionDecisionHandlers.ts
+++ b/src/stateManager/processExecutionDecisionHandlers.ts
@@ -8,6 +8,7 @@ export interface DecisionContext {
     p2pManager: P2PManager;
     agreementManager: AgreementManager;
     disputeHandler: DisputeHandler;
+    runDispute: (dispute: () => Promise<void>) => Promise<void>;
     onSuccessCb: () => Promise<void>;
     forkCount: number;
 }
@@ -19,10 +20,14 @@ const disputeHandlers: Partial<
     >
 > = {
     [AgreementFlag.DOUBLE_SIGN]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeDoubleSign([signedBlock]);
+        ctx.runDispute(() =>
+            ctx.disputeHandler.disputeDoubleSign([signedBlock])
+        );
     },
     [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
-        ctx.disputeHandler.disputeIncorrectData(signedBlock);
+        ctx.runDispute(() =>
+            ctx.disputeHandler.disputeIncorrectData(signedBlock)
+        );
     }
 };
 
-- 
2.43.0


From 30dd0ba101e0dc94fddc7b898c56de77a6d9f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 09/35] fix: timeouts are decided when they are due

The delayed timeout disputed without looking again at what had happened in the
meantime, was dropped when calldata had postponed it, and was attempted for
blocks already received.
---
 src/stateManager/StateManager.ts | 118 ++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 49 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index f1d4f92..05c3935 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -398,10 +398,7 @@ class StateManager {
         participantAdr: string
     ) {
         if (participantAdr == this.signerAddress) return;
-        const block = this.agreementManager.getBlock(forkCnt, transactionCnt);
-        if (block) {
-            if (this.agreementManager.didEveryoneSignBlock(block)) return;
-        }
+        if (this.isTimeoutObsolete(forkCnt, transactionCnt)) return;
         //if there is no block -> check if player posted on chain and try timeout
         if (
             this.agreementManager.didParticipantPostOnChain(
@@ -411,54 +408,81 @@ class StateManager {
             )
         )
             return;
-        if (
-            Clock.getTimeInSeconds() <
-            this.agreementManager.getChainLatestBlockTimestamp(
+        //This should be enough since Clock should always lag behind DLT clock
+        const delayTimeSeconds =
+            this.getTimeoutWaitTimeSeconds() -
+            (Clock.getTimeInSeconds() -
+                this.agreementManager.getLatestTimestamp(
+                    forkCnt,
+                    transactionCnt
+                ));
+        if (delayTimeSeconds >= 0)
+            return this.scheduleTimeout(
                 forkCnt,
-                transactionCnt
-            ) +
-                this.getTimeoutWaitTimeSeconds()
-        )
-            return;
-        const response =
-            await this.stateChannelManagerContract.getBlockCallData(
+                transactionCnt,
+                participantAdr,
+                delayTimeSeconds + 1
+            );
+        let response;
+        try {
+            response = await this.stateChannelManagerContract.getBlockCallData(
                 this.channelId,
                 forkCnt,
                 transactionCnt,
                 participantAdr
             );
+        } catch (e) {
+            console.error("tryTimeoutParticipant - will retry", e);
+            return this.scheduleTimeout(
+                forkCnt,
+                transactionCnt,
+                participantAdr,
+                this.timeConfig.agreementTime
+            );
+        }
         if (response.found) return;
-        //This should be enough since Clock should always lag behind DLT clock
-        const delayTimeSeconds =
-            this.getTimeoutWaitTimeSeconds() -
-            (Clock.getTimeInSeconds() -
-                this.agreementManager.getLatestBlockTimestamp(forkCnt));
-        if (delayTimeSeconds < 0) {
+        if (this.isTimeoutObsolete(forkCnt, transactionCnt)) return;
+        console.log("Timeout participant!");
+        await this.runDispute(() =>
             this.disputeHandler.createDispute(
                 forkCnt,
                 participantAdr,
                 transactionCnt,
                 []
-            );
-            console.log("Timeout participant!");
-        } else {
-            scheduleTask(
-                async () => {
-                    this.disputeHandler.createDispute(
-                        forkCnt,
-                        participantAdr,
-                        transactionCnt,
-                        []
-                    );
-                    console.log(
-                        "Timeout participant! - delayed",
-                        delayTimeSeconds
-                    );
-                },
-                delayTimeSeconds * 1000,
-                "timeoutParticipantDelayed"
-            );
-        }
+            )
+        );
+    }
+
+    // The participant transitioned the state or the fork is (being) replaced
+    private isTimeoutObsolete(
+        forkCnt: number,
+        transactionCnt: number
+    ): boolean {
+        return (
+            this.isDisposed ||
+            forkCnt !== this.getForkCnt() ||
+            this.disputeHandler.isForkDisputed(forkCnt) ||
+            this.agreementManager.getBlock(forkCnt, transactionCnt) !==
+                undefined
+        );
+    }
+
+    private scheduleTimeout(
+        forkCnt: number,
+        transactionCnt: number,
+        participantAdr: string,
+        delaySeconds: number
+    ): void {
+        scheduleTask(
+            () =>
+                this.tryTimeoutParticipant(
+                    forkCnt,
+                    transactionCnt,
+                    participantAdr
+                ),
+            delaySeconds * 1000,
+            "participantTimeout"
+        );
     }
 
     private async onSuccessCommon() {
@@ -484,15 +508,11 @@ class StateManager {
         this.p2pEventHooks.onTurn?.(nextToWrite);
 
         // Schedule a timeout check for the next participant
-        scheduleTask(
-            () =>
-                this.tryTimeoutParticipant(
-                    forkCnt,
-                    nextTransactionCnt,
-                    nextToWrite
-                ),
-            this.getTimeoutWaitTimeSeconds() * 1000,
-            "participantTimeout"
+        this.scheduleTimeout(
+            forkCnt,
+            nextTransactionCnt,
+            nextToWrite,
+            this.getTimeoutWaitTimeSeconds()
         );
     }
     // Helper function that takes appropriate action on the signed block based on the execution flag and agreement flag
-- 
2.43.0


From 04590421ef45b3281491dbb488eb6ff2f20279f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 10/35] fix: a transaction that does not become a block leaves
 the state untouched

A block with a wrong result, a failed signature or a stale header changed the
local state machine (or signed a second block for the same height); a block
could also be signed on a fork that is being disputed.
---
 src/evm/P2pSigner.ts                  |  7 +++++++
 src/stateManager/StateManager.ts      | 26 +++++++++++++++++++++++---
 src/stateManager/ValidationService.ts | 12 +++++++-----
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index c4f0b09..3a593ab 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -126,6 +126,13 @@ class P2pSigner implements Signer {
     public async confirmBlock(signedBlock: SignedBlockStruct) {
         let block = EvmUtils.decodeBlock(signedBlock.encodedBlock);
         let confirmedBlock = await EvmUtils.signBlock(block, this.signer);
+        // Confirming on a disputed fork contradicts the state already posted on-chain
+        if (
+            this.p2pManager.stateManager.disputeHandler.isForkDisputed(
+                Number(block.transaction.header.forkCnt)
+            )
+        )
+            return;
         this.p2pManager.stateManager.agreementManager.confirmBlock(
             block,
             confirmedBlock.signature as SignatureLike
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 05c3935..b880460 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -304,18 +304,26 @@ class StateManager {
     ): Promise<SignedBlockStruct> {
         await this.mutex.lock();
 
+        let rollbackState: string | undefined;
         try {
             console.log("Play Transaction", this.getForkCnt());
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
+            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
+                throw new Error("Fork is disputed");
+            }
             if (!(await this.isMyTurn())) {
                 throw new Error(
                     `Not player turn - myAddress: ${String(this.signerAddress)} - nextToWrite: ${await this.stateMachine.getNextToWrite()}`
                 );
             }
+            // The channel may have advanced while waiting for the mutex
+            tx.header.forkCnt = this.getForkCnt();
+            tx.header.transactionCnt = this.getNextBlockHeight();
             this.adjustTimestampIfNeeded(tx);
 
+            rollbackState = await this.getEncodedState();
             const {
                 success,
                 encodedState,
@@ -331,15 +339,19 @@ class StateManager {
 
             const block = await this.createBlock(tx, previousStateHash);
             const signedBlock = await this.signBlock(block);
+            // A dispute may have been created (or have ended) while signing - don't extend a disputed fork
+            if (
+                this.disputeHandler.isForkDisputed(Number(tx.header.forkCnt))
+            ) {
+                throw new Error("Fork is disputed");
+            }
 
             this.agreementManager.addBlock(
                 block,
                 signedBlock.signature as SignatureLike,
                 encodedState
             );
-
-            successCallback();
-            await this.onSuccessCommon();
+            rollbackState = undefined;
 
             scheduleTask(
                 () => this.maybePostBlockOnChain(block, signedBlock),
@@ -347,7 +359,15 @@ class StateManager {
                 "maybePostBlockOnChain"
             );
 
+            successCallback();
+            await this.onSuccessCommon();
+
             return signedBlock;
+        } catch (e) {
+            // All or nothing - no block -> no state change
+            if (rollbackState !== undefined)
+                await this.stateMachine.setState(rollbackState);
+            throw e;
         } finally {
             this.mutex.unlock();
         }
diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index e7d95b2..8b51a37 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -163,9 +163,8 @@ export default class ValidationService {
         block: BlockStruct,
         signed: SignedBlockStruct
     ): Promise<ValidationResult> {
-        const previousStateHash = await this.stateMachine
-            .getState()
-            .then(ethers.keccak256);
+        const previousState = await this.stateMachine.getState();
+        const previousStateHash = ethers.keccak256(previousState);
         let { success: txOK, successCallback } =
             await this.stateMachine.stateTransition(block.transaction);
 
@@ -176,7 +175,10 @@ export default class ValidationService {
             stateHash === block.stateHash &&
             previousStateHash === block.previousStateHash;
 
-        if (!txOK || !hashOK) return dispute(AgreementFlag.INCORRECT_DATA);
+        if (!txOK || !hashOK) {
+            await this.stateMachine.setState(previousState);
+            return dispute(AgreementFlag.INCORRECT_DATA);
+        }
 
         this.agreementManager.addBlock(
             block,
@@ -222,7 +224,7 @@ export default class ValidationService {
             blockHeight
         );
 
-        if (blockTimestamp < latestTxTs) throw new Error("Not implemented");
+        if (blockTimestamp < latestTxTs) return false;
 
         if (blockTimestamp > initialReferenceTime + this.timeCfg.p2pTime) {
             const chainTs = Number(
-- 
2.43.0


From 79281e6fee8a1a8492093c4fd27455b3e2e14cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 11/35] fix: a new on-chain state is applied once and never in
 the middle of a block

---
 src/agreementManager/AgreementManager.ts |  3 +++
 src/stateManager/StateManager.ts         | 28 +++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/agreementManager/AgreementManager.ts b/src/agreementManager/AgreementManager.ts
index 8ef4164..d3b5d40 100644
--- a/src/agreementManager/AgreementManager.ts
+++ b/src/agreementManager/AgreementManager.ts
@@ -92,6 +92,9 @@ class AgreementManager {
     public getNextBlockHeight(): number {
         return this.forkService.getNextBlockHeight();
     }
+    public isNextFork(forkCnt: number): boolean {
+        return this.forkService.getNextForkIndex() === forkCnt;
+    }
     // False until the first fork (genesis) is known
     public hasFork(): boolean {
         return this.forkService.getLatestFork() !== undefined;
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index b880460..eb97107 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -206,17 +206,25 @@ class StateManager {
         _timestamp: BigNumberish
     ): Promise<void> {
         console.log("StateManager - SetState", _forkCnt, _timestamp);
-        await this.stateMachine.setState(encodedState);
-        this.agreementManager.newFork(
-            encodedState,
-            await this.stateMachine.getParticipants(),
-            Number(_forkCnt),
-            Number(_timestamp)
-        );
+        // Not while a block is being executed
+        await this.mutex.lock();
+        try {
+            // A repeated event must not reset the state of a running fork
+            if (!this.agreementManager.isNextFork(Number(_forkCnt))) return;
+            await this.stateMachine.setState(encodedState);
+            this.agreementManager.newFork(
+                encodedState,
+                await this.stateMachine.getParticipants(),
+                Number(_forkCnt),
+                Number(_timestamp)
+            );
 
-        //Try timeout next participant
-        this.p2pEventHooks.onSetState?.();
-        return this.onSuccessCommon();
+            //Try timeout next participant
+            this.p2pEventHooks.onSetState?.();
+            await this.onSuccessCommon();
+        } finally {
+            this.mutex.unlock();
+        }
     }
 
     // Passes the signedBlock through a verification pipeline and returns an execution flag based on the outcome
-- 
2.43.0


From d0338bdd952c123a08c3e27ad8d54e6ec47e3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 12/35] fix: the handshake signs a handshake message and
 answers the peer that asked

A peer could send the hash of a block as its challenge and receive a valid
block signature; a challenge answered while another message arrived was sent to
the wrong connection.
---
 src/rpc/services/InitHandshakeService.ts | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/rpc/services/InitHandshakeService.ts b/src/rpc/services/InitHandshakeService.ts
index 8450d8b..66f6985 100644
--- a/src/rpc/services/InitHandshakeService.ts
+++ b/src/rpc/services/InitHandshakeService.ts
@@ -31,6 +31,8 @@ class InitHandshakeService extends ARpcService {
     }
 
     public async onInitHandshakeRequest(challengeHash: string, time: number) {
+        // other messages can arrive while signing
+        const senderTransport = this.mainRpcService.senderTransport;
         let localTime = Clock.getTimeInSeconds();
         if (
             Math.abs(time - localTime) >
@@ -51,7 +53,7 @@ class InitHandshakeService extends ARpcService {
         console.log(
             `onInitHandshakeRequest - localTime:${localTime} time:${time}`
         );
-        let challengeHashBytes = ethers.getBytes(challengeHash);
+        let challengeHashBytes = this.getChallengeMessage(challengeHash);
         let signature =
             await this.mainRpcService.p2pManager.p2pSigner.signMessage(
                 challengeHashBytes
@@ -63,7 +65,7 @@ class InitHandshakeService extends ARpcService {
                 localTime,
                 this.mainRpcService.p2pManager.preferredTransport
             )
-            .sendOne(this.mainRpcService.senderTransport!);
+            .sendOne(senderTransport!);
     }
 
     public async onInitHandshakeResponse(
@@ -99,7 +101,9 @@ class InitHandshakeService extends ARpcService {
             return;
         }
         //verify signature
-        let challengeHashBytes = ethers.getBytes(challenge.randomChallengeHash);
+        let challengeHashBytes = this.getChallengeMessage(
+            challenge.randomChallengeHash
+        );
         let signerAddress = ethers.verifyMessage(challengeHashBytes, signature);
         // let p =
         //     this.p2pManager.profileManager.getProfileByEvmAddress(
@@ -152,6 +156,15 @@ class InitHandshakeService extends ARpcService {
         //     .broadcast();
     }
 
+    // The signed message can't be anything else than a handshake (e.g. the hash of a block)
+    private getChallengeMessage(challengeHash: string): Uint8Array {
+        return ethers.getBytes(
+            ethers.solidityPackedKeccak256(
+                ["string", "bytes32"],
+                ["InitHandshake", challengeHash]
+            )
+        );
+    }
     private setChallenge(
         transport: ATransport,
         challenge: ConnectionChallenge
-- 
2.43.0


From 0bab3b14e1f23a9f883ae71b0c76177c8b34b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 13/35] fix: only canonical block and signature encodings are
 accepted

A block or a confirmation in another encoding was stored as agreed, but could
not be enforced on-chain.
---
 src/stateManager/ValidationService.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stateManager/ValidationService.ts b/src/stateManager/ValidationService.ts
index 8b51a37..20a1c3c 100644
--- a/src/stateManager/ValidationService.ts
+++ b/src/stateManager/ValidationService.ts
@@ -137,6 +137,8 @@ export default class ValidationService {
             }
         }
 
+        if (!isCanonicalSignature(confirmationSig)) return disconnect();
+
         /* confirmer inside fork */
         const confirmer = EvmUtils.retrieveSignerAddressBlock(
             blk,
@@ -272,6 +274,10 @@ export default class ValidationService {
     ): boolean {
         if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;
 
+        // Only the one encoding that the block and the signature are stored and posted with
+        if (EvmUtils.encodeBlock(block) !== signed.encodedBlock) return false;
+        if (!isCanonicalSignature(signed.signature)) return false;
+
         const h = ethers.keccak256(signed.encodedBlock);
         const signer = ethers.verifyMessage(
             ethers.getBytes(h),
@@ -282,6 +288,10 @@ export default class ValidationService {
     }
 }
 
+/* 65 bytes - the only form that is accepted on-chain */
+const isCanonicalSignature = (signature: BytesLike): boolean =>
+    ethers.Signature.from(signature as SignatureLike).serialized === signature;
+
 /* small helpers for clarity */
 const success = (): ValidationResult => ({
     success: true,
-- 
2.43.0


From d914a2c59b82c14945915ff41c84907f59681f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 14/35] fix: confirmations queued for an already executed
 height are processed

---
 src/stateManager/StateManager.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index eb97107..85a0df1 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -32,6 +32,7 @@ import {
     processConfirmationDecision
 } from "./processConfirmationDecisionHandlers";
 import ValidationService from "./ValidationService";
+import { BlockConfirmation } from "@/agreementManager/types";
 
 let DEBUG_STATE_MANAGER = false;
 class StateManager {
@@ -173,11 +174,15 @@ class StateManager {
         }
     }
     private async tryConfirmFromQueue(): Promise<void> {
-        //TODO! race condition and skipping a txCount
-        let confirmations = this.agreementManager.tryDequeueConfirmations(
-            this.getForkCnt(),
-            this.getNextBlockHeight()
-        );
+        // Including heights whose block was executed after the confirmation was queued
+        const confirmations: BlockConfirmation[] = [];
+        for (let height = 0; height <= this.getNextBlockHeight(); height++)
+            confirmations.push(
+                ...this.agreementManager.tryDequeueConfirmations(
+                    this.getForkCnt(),
+                    height
+                )
+            );
 
         for (const confirmation of confirmations) {
             try {
-- 
2.43.0


From 11aa7bef063562a3ed81b944a75454bf29e268fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 15/35] fix: without blocks a dispute can only claim the
 finalized state

The latest state of a dispute without voting blocks was not checked at all, so
any participant could set any state.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0955b4b..f8c6e1e 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -931,6 +931,13 @@ contract DisputeManagerFacet is StateChannelCommon {
             previousStateHash = _block.stateHash;
         }
 
+        //Without blocks the latest state can only be the finalized state
+        if (virtualVotingBlocks.length == 0)
+            require(
+                finalizedStateHash == keccak256(encodedLatestCorrectState),
+                ErrorFinalizedAndLatestLastBlockNotVoringForLatestState()
+            );
+
         return isGenesis || countThreshold == thresholdSingers.length;
     }
 
-- 
2.43.0


From edfe50268d0d36ef0f6494dd1ac97040c3772f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 16/35] fix: a timeout is always linked to the latest block of
 the dispute

With a folded transaction count of 0 the latest block was ignored and its
successor could be timed out right away.
---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index f8c6e1e..0942a21 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -138,15 +138,15 @@ contract DisputeManagerFacet is StateChannelCommon {
         if (timedoutParticipant != address(0)) {
             //Check if participant posted BLOCK onChain as calldata
             uint latestTimestamp = getGenesisTimestamp(channelId, forkCnt);
-            if (foldedTransactionCnt != 0) {
+            if (virtualVotingBlocks.length != 0 || foldedTransactionCnt != 0) {
                 Block memory lastBlock = abi.decode(
                     virtualVotingBlocks[virtualVotingBlocks.length - 1]
                         .encodedBlock,
                     (Block)
                 );
                 require(
-                    lastBlock.transaction.header.transactionCnt ==
-                        foldedTransactionCnt - 1,
+                    lastBlock.transaction.header.transactionCnt + 1 ==
+                        foldedTransactionCnt,
                     ErrorTimeoutNotLinkedToPreviousBlock()
                 );
                 latestTimestamp = lastBlock.transaction.header.timestamp;
-- 
2.43.0


From 801cd488f815ee166bd781caf323ec65d0629a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 17/35] fix: a dispute inherits nothing from the previous one

Old voting blocks, slashed participants and the old timeout disputer stayed in
the reused storage: participants of the new dispute were slashed for nothing.
---
 .../StateChannelDiamondProxy/DisputeManagerFacet.sol  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0942a21..22de4a6 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -198,10 +198,14 @@ contract DisputeManagerFacet is StateChannelCommon {
         dispute.encodedLatestFinalizedState = encodedLatestFinalizedState;
         dispute.encodedLatestCorrectState = encodedLatestCorrectState;
         dispute.timedoutParticipant = timedoutParticipant;
-        if (dispute.timedoutParticipant != address(0))
-            dispute.timeoutDisputer = msg.sender;
+        dispute.timeoutDisputer = timedoutParticipant != address(0)
+            ? msg.sender
+            : address(0);
         dispute.postedStateDisputer = msg.sender;
-        // dispute.slashedParticipants = []; //default empty array
+        //nothing is inherited from the previous dispute of this channel
+        delete dispute.slashedParticipants;
+        delete dispute.joinChannelParticipants;
+        delete dispute.leaveChannelParticipants;
         dispute.participants = participants;
         dispute.creationTimestamp = block.timestamp;
         dispute.deadlineTimestamp = block.timestamp + getChallengeTime();
@@ -945,6 +949,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         ConfirmedBlock[] storage _storage,
         ConfirmedBlock[] memory _memory
     ) internal {
+        while (_storage.length > 0) _storage.pop();
         for (uint i = 0; i < _memory.length; i++) {
             _storage.push(_memory[i]);
         }
-- 
2.43.0


From 1f18396b59e374e6524eb97902385a03b5e5bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 18/35] fix: disputes without voting blocks can be challenged

Challenging one (or with one) reverted. A block at the height of the latest
posted one is not newer than it.
---
 .../DisputeManagerFacet.sol                   | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 22de4a6..c943e61 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -268,19 +268,26 @@ contract DisputeManagerFacet is StateChannelCommon {
             ),
             ErrorLatestFinalizedBlock()
         );
-        Block memory oldBlock = abi.decode(
-            dispute.virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        Block memory newBlock = abi.decode(
-            virtualVotingBlocks[0].encodedBlock,
-            (Block)
-        );
-        require(
-            newBlock.transaction.header.transactionCnt >=
-                oldBlock.transaction.header.transactionCnt,
-            ErrorChallengeNewFinalizedBeforeOldFinalized()
-        );
+        //No blocks in the dispute - genesis - nothing is before that
+        if (dispute.virtualVotingBlocks.length != 0) {
+            require(
+                virtualVotingBlocks.length != 0,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+            Block memory oldBlock = abi.decode(
+                dispute.virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            Block memory newBlock = abi.decode(
+                virtualVotingBlocks[0].encodedBlock,
+                (Block)
+            );
+            require(
+                newBlock.transaction.header.transactionCnt >=
+                    oldBlock.transaction.header.transactionCnt,
+                ErrorChallengeNewFinalizedBeforeOldFinalized()
+            );
+        }
         copyConfirmedBlockArrayIntoStorage(
             dispute.virtualVotingBlocks,
             virtualVotingBlocks
@@ -646,17 +653,20 @@ contract DisputeManagerFacet is StateChannelCommon {
             retrivedAddress == dispute.postedStateDisputer,
             ErrorNewerStateConfirmationInvalid()
         );
-        Block memory latestKnownBlock = abi.decode(
-            dispute
-                .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
-                .encodedBlock,
-            (Block)
-        );
-        require(
-            _block.transaction.header.transactionCnt >=
-                latestKnownBlock.transaction.header.transactionCnt,
-            ErrorTransactionCountMismatch()
-        );
+        //No blocks in the dispute - any signed block is newer than genesis
+        if (dispute.virtualVotingBlocks.length != 0) {
+            Block memory latestKnownBlock = abi.decode(
+                dispute
+                    .virtualVotingBlocks[dispute.virtualVotingBlocks.length - 1]
+                    .encodedBlock,
+                (Block)
+            );
+            require(
+                _block.transaction.header.transactionCnt >
+                    latestKnownBlock.transaction.header.transactionCnt,
+                ErrorTransactionCountMismatch()
+            );
+        }
         return
             insertIfNotExist(
                 dispute.slashedParticipants,
-- 
2.43.0


From 11aec1361b80ec8f08008329074811001bdc328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 19/35] fix: an incorrect data proof needs consecutive blocks
 of participants

A later state equal to genesis was judged by the genesis timestamp, and any
block with the right state hash passed for the predecessor.
---
 .../DisputeManagerFacet.sol                   | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index c943e61..0f7696f 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -566,15 +566,30 @@ contract DisputeManagerFacet is StateChannelCommon {
                 block2.transaction.header.forkCnt == dispute.forkCnt,
             ErrorDisputeForkMismatch()
         );
+        //Only participants can be guilty (or relied upon)
+        require(
+            StateChannelUtilLibrary.isAddressInArray(
+                dispute.participants,
+                retrived1
+            ) &&
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived2
+                ),
+            ErrorNotParticipant()
+        );
         uint previousTimestamp;
-        //If encodedState is genesis => Block2 is first block and block1 is just a copy of block2 and is ignored
-        if (
-            isGenesisState(
-                dispute.channelId,
-                dispute.forkCnt,
-                incorrectDataProof.encodedState
-            )
-        ) {
+        //Block2 is first block => encodedState is genesis and block1 is just a copy of block2 and is ignored
+        //(a later state can be equal to genesis - the state alone doesn't tell)
+        if (block2.transaction.header.transactionCnt == 0) {
+            require(
+                isGenesisState(
+                    dispute.channelId,
+                    dispute.forkCnt,
+                    incorrectDataProof.encodedState
+                ),
+                ErrorIncorrectDataStateHashNotLinkedToBlock(2)
+            );
             //if encoded state is genesis - block1 is ignored and block2 builds on genesis istead of block1
             require(
                 block2.previousStateHash ==
@@ -588,6 +603,11 @@ contract DisputeManagerFacet is StateChannelCommon {
         } else {
             //Not genesis - block2 builds on block1
             //Check linked
+            require(
+                block1.transaction.header.transactionCnt + 1 ==
+                    block2.transaction.header.transactionCnt,
+                ErrorIncorrectDataBlocksNotLinked()
+            );
             require(
                 block2.previousStateHash == block1.stateHash,
                 ErrorIncorrectDataBlocksNotLinked()
-- 
2.43.0


From 105ad8cf896ba8c486c8e63c179ef70c451dbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 20/35] fix: a timeout can only be rechallenged when there is
 one

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 0f7696f..96aa4a7 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -457,6 +457,8 @@ contract DisputeManagerFacet is StateChannelCommon {
                 dispute.foldedTransactionCnt,
             ErrorTransactionCountMismatch()
         );
+        //There has to be a timeout to challenge
+        if (dispute.timedoutParticipant == address(0)) return false;
         (bool succeeds, ) = StateChannelUtilLibrary.verifyThresholdSigned(
             dispute.participants,
             foldRechallengeProof.encodedBlock,
-- 
2.43.0


From c13b238cd97253206b0ca3b542eebc4d7b12bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 21/35] fix: a double sign only slashes a participant

---
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 96aa4a7..d70c099 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -519,6 +519,13 @@ contract DisputeManagerFacet is StateChannelCommon {
                 doubleSign.block2.signature
             );
             require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());
+            require(
+                StateChannelUtilLibrary.isAddressInArray(
+                    dispute.participants,
+                    retrived1
+                ),
+                ErrorNotParticipant()
+            );
             //If we're here - the proof is valid
             success =
                 insertIfNotExist(dispute.slashedParticipants, retrived1) ||
-- 
2.43.0


From 5613727efe6cf3e5b0c065d9180211ea90334add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 22/35] fix: folding a prior block needs a timeout that is due

Any participant could remove the author of any block of the dispute, without
an existing timeout, without the time having passed and without the author being
able to rechallenge.
---
 .../DisputeManagerFacet.sol                      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index d70c099..3fc125b 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -717,7 +717,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             if (
                 _block.transaction.header.transactionCnt ==
                 foldPriorBlockProof.transactionCnt
-            ) isTransactionCntInVirtualVotes = true;
+            ) {
+                isTransactionCntInVirtualVotes = true;
+                break;
+            }
         }
         require(
             isTransactionCntInVirtualVotes,
@@ -727,6 +730,16 @@ contract DisputeManagerFacet is StateChannelCommon {
             foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt,
             ErrorTimeoutPriorBlockNotPrior()
         );
+        //Moves an existing timeout to an earlier block whose author had enough time to post it
+        require(
+            dispute.timedoutParticipant != address(0) &&
+                dispute.creationTimestamp >=
+                _block.transaction.header.timestamp +
+                    getP2pTime() +
+                    getAgreementTime() +
+                    getChainFallbackTime(),
+            ErrorTimeoutInvalid()
+        );
 
         //Check timestamp for BlockCalldata
         (bool found, BlockCalldata memory _blockCalldata) = getBlockCallData(
@@ -741,6 +754,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
 
         dispute.timedoutParticipant = _block.transaction.header.participant;
+        dispute.foldedTransactionCnt = foldPriorBlockProof.transactionCnt; //the timeout can be rechallenged
         dispute.timeoutDisputer = msg.sender;
         return true;
     }
-- 
2.43.0


From 6cb75a82dee11da54e27dde3977fc6dc01fcdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 23/35] fix: application events come from the channel, not from
 the ledger

---
 src/evm/P2pSigner.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/evm/P2pSigner.ts b/src/evm/P2pSigner.ts
index 3a593ab..2481c50 100644
--- a/src/evm/P2pSigner.ts
+++ b/src/evm/P2pSigner.ts
@@ -38,7 +38,19 @@ class P2pSigner implements Signer {
     ) {
         this.signer = signer;
         this.signerAddress = signerAddress;
-        this.provider = signer.provider;
+        // Application events come from the channel's own blocks - not from what the ledger executes (eg. while checking a dispute)
+        this.provider =
+            signer.provider &&
+            new Proxy(signer.provider, {
+                get: (target, prop) => {
+                    if (prop === "on" || prop === "off")
+                        return async () => target;
+                    const value = Reflect.get(target, prop, target);
+                    return typeof value === "function"
+                        ? value.bind(target)
+                        : value;
+                }
+            });
         this.p2pManager = p2pManager;
         this.isLeader = false;
     }
-- 
2.43.0


From 6d05a27d2c39390e33b4ba2bbe293eb56cc71872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 24/35] fix: disputes are not limited to a fixed amount of gas

---
 src/DisputeHandler.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 62f56aa..9f15b29 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -216,8 +216,7 @@ class DisputeHandler {
                         virtualVotingBlocks,
                         foldedParticipant,
                         foldedTransactionCnt,
-                        proofs,
-                        { gasLimit: 4000000 } //TODO! - gas limit
+                        proofs
                     );
                 console.log("TX HASH ##", txResponse.hash);
                 const txReceipt = await txResponse.wait();
@@ -297,8 +296,7 @@ class DisputeHandler {
                     proofs,
                     virtualVotingBlocks,
                     encodedLatestFinalizedState,
-                    encodedLatestCorrectState,
-                    { gasLimit: 2000000 } //TODO! - gas limit
+                    encodedLatestCorrectState
                 )
                 .then((txResponse) => txResponse.wait());
         } catch (e) {
-- 
2.43.0


From bbd6fd78472ca3cf92858ad7a993aae7ffde71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 25/35] fix: a clock ahead of the ledger is corrected too

---
 src/Clock.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Clock.ts b/src/Clock.ts
index 3e98440..e280ce4 100644
--- a/src/Clock.ts
+++ b/src/Clock.ts
@@ -46,7 +46,7 @@ class Clock {
             return;
         }
         //TODO - think - shouit it be 2* or 1* or something else?
-        if (difference > 2 * averageBlockTime) {
+        if (Math.abs(difference) > 2 * averageBlockTime) {
             this.clockAjustmentSeconds += difference;
             await this.syncClock(); // Recursively call syncClock until condition is satisfied
         }
-- 
2.43.0


From 8ab0733adc4ee64303a2c1d0afc55ea1b9e8d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 26/35] fix: application events are emitted in the order of the
 blocks

---
 src/stateManager/StateManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 85a0df1..f0a2e24 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -372,7 +372,12 @@ class StateManager {
                 "maybePostBlockOnChain"
             );
 
-            successCallback();
+            // After the events of the blocks before it - which are scheduled too
+            scheduleTask(
+                successCallback,
+                0,
+                "stateTransitionSuccessCallback"
+            );
             await this.onSuccessCommon();
 
             return signedBlock;
-- 
2.43.0


From 30270c09606ee3fec7adeed731d90e03533df064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 27/35] fix: agreed joins and leaves do not call the self-only
 entry points

---
 .../V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 9ee6327..1d54bb9 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -133,7 +133,7 @@ abstract contract AStateChannelManagerProxy is
         JoinChannel[] memory joinCahnnels = new JoinChannel[](1);
         joinCahnnels[0] = joinChannel;
         uint successCnt;
-        (encodedState, successCnt) = applyJoinChannelToStateMachine(
+        (encodedState, successCnt) = _applyJoinChannelToStateMachine(
             encodedState,
             joinCahnnels
         );
@@ -206,7 +206,7 @@ abstract contract AStateChannelManagerProxy is
             bytes memory encodedState,
             ProcessExit[] memory pe,
             uint successCnt
-        ) = removeParticipantsFromStateMachine(encodedState, p);
+        ) = _removeParticipantsFromStateMachine(encodedState, p);
         require(
             successCnt == 1,
             "AStateChannelManager: leaveChannelWithAgreement - removeParticipantsFromStateMachine failed"
-- 
2.43.0


From 34a3979d906345877ceb5ea56eab47cbe1dd38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 28/35] fix: exits of a final dispute are processed before the
 next dispute overwrites them

---
 contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index 3fc125b..af83a66 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -187,6 +187,10 @@ contract DisputeManagerFacet is StateChannelCommon {
             require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());
         }
         Dispute storage dispute = disputes[channelId];
+        //the previous dispute is final - its exits are processed before they are overwritten
+        for (uint i = 0; i < dispute.processExits.length; i++)
+            removeParticipantComposable(channelId, dispute.processExits[i]);
+        delete dispute.processExits;
         dispute.channelId = channelId;
         dispute.forkCnt = forkCnt;
         dispute.challengeCnt = 0; //this can be removed - default value
-- 
2.43.0


From 230a17042695aee05b44740b1b3df63d8855bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 29/35] fix: join and leave agreements expire at their deadline

---
 .../AStateChannelManagerProxy.sol                         | 8 ++++++++
 .../V1/StateChannelDiamondProxy/DisputeManagerFacet.sol   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
index 1d54bb9..024ad22 100644
--- a/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
+++ b/contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol
@@ -53,6 +53,10 @@ abstract contract AStateChannelManagerProxy is
             !isDisputeInProgress(joinChannel.channelId),
             "AStateChannelManager: joinChannelWithAgreement - Dispute in progress"
         );
+        require(
+            joinChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: joinChannelWithAgreement - expired"
+        );
         tryProcessOldExits(joinChannel.channelId);
 
         //require forkCnt to match
@@ -160,6 +164,10 @@ abstract contract AStateChannelManagerProxy is
             !isDisputeInProgress(leaveChannel.channelId),
             "AStateChannelManager: leaveChannelWithAgreement - Dispute in progress"
         );
+        require(
+            leaveChannel.deadlineTimestamp > block.timestamp,
+            "AStateChannelManager: leaveChannelWithAgreement - expired"
+        );
         tryProcessOldExits(leaveChannel.channelId);
 
         //require forkCnt to match
diff --git a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
index af83a66..e861a64 100644
--- a/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
+++ b/contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol
@@ -850,7 +850,7 @@ contract DisputeManagerFacet is StateChannelCommon {
         );
         require(!isParticipant, ErrorJoinChannelAlreadyInChannel());
         require(
-            block.timestamp > jc.deadlineTimestamp,
+            jc.deadlineTimestamp > block.timestamp,
             ErrorJoinChannelExpired()
         );
         require(
-- 
2.43.0


From d1441931961e598b0801581b353a744113c6df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 30/35] fix: a dispute that could not be submitted is submitted
 again

---
 src/DisputeHandler.ts            |  4 ++++
 src/stateManager/StateManager.ts | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 9f15b29..8200f2c 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -241,6 +241,10 @@ class DisputeHandler {
     public isForkDisputed(forkCnt: number): boolean {
         return this.disputedForks.get(forkCnt) ?? false;
     }
+    // Marked as disputed, but no dispute is known (yet)
+    public isDisputePending(forkCnt: number): boolean {
+        return this.isForkDisputed(forkCnt) && !this.disputes.has(forkCnt);
+    }
     private addProof(forkCnt: number, proof: ProofStruct): void {
         const proofs = this.localProofs.get(forkCnt) || [];
         proofs.push(proof);
diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index f0a2e24..2f803c5 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -422,9 +422,27 @@ class StateManager {
 
     // Runs a dispute in the background - if it was not accepted (the fork is not disputed) the channel continues
     private runDispute(dispute: () => Promise<void>): Promise<void> {
+        const forkCnt = this.getForkCnt();
         return dispute().catch(async (e) => {
             console.error("StateManager - dispute failed", e);
             if (this.isDisposed) return;
+            // Neither accepted nor rejected (eg. the chain can't be reached) - the fork stays unusable until it is
+            if (
+                forkCnt === this.getForkCnt() &&
+                this.disputeHandler.isDisputePending(forkCnt)
+            )
+                scheduleTask(
+                    async () => {
+                        if (
+                            !this.isDisposed &&
+                            forkCnt === this.getForkCnt() &&
+                            this.disputeHandler.isDisputePending(forkCnt)
+                        )
+                            await this.runDispute(dispute);
+                    },
+                    this.timeConfig.agreementTime * 1000,
+                    "retryDispute"
+                );
             await this.onSuccessCommon();
         });
     }
-- 
2.43.0


From 512ecba30170e833ac22a060a6ffdf0baf7b810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 31/35] fix: evidence found while an earlier dispute can still
 be challenged is kept

---
 src/DisputeHandler.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/DisputeHandler.ts b/src/DisputeHandler.ts
index 8200f2c..d288d23 100644
--- a/src/DisputeHandler.ts
+++ b/src/DisputeHandler.ts
@@ -9,12 +9,14 @@ import { SignedBlockStruct } from "@typechain-types/contracts/V1/DataTypes";
 import { EvmUtils, DebugProxy, retry } from "@/utils";
 import P2pEventHooks from "@/P2pEventHooks";
 import ProofManager from "./ProofManager";
+import Clock from "@/Clock";
 
 let DEBUG_DISPUTE_HANDLER = true;
 
 // Constants for commonly used values
 const NO_PARTICIPANT_TO_FOLD = ethers.ZeroAddress;
 const INITIAL_TRANSACTION_COUNT = 0;
+const CLOCK_TOLERANCE = 15; // seconds - clock difference plus the time a rejection takes to be noticed
 
 type ForkCnt = number;
 class DisputeHandler {
@@ -182,7 +184,13 @@ class DisputeHandler {
         }
         if (creationError && Number(newDispute.forkCnt) !== forkCntNumber) {
             // rejected by the chain and nobody else disputed the fork -> it stays usable
-            if (creationError.code === "CALL_EXCEPTION")
+            // (evidence is kept while an earlier dispute can still be challenged)
+            if (
+                creationError.code === "CALL_EXCEPTION" &&
+                (proofs.length === 0 ||
+                    Number(newDispute.deadlineTimestamp) + CLOCK_TOLERANCE <
+                        Clock.getTimeInSeconds())
+            )
                 this.disputedForks.delete(forkCntNumber);
             throw creationError;
         }
-- 
2.43.0


From 026f4f7a70e3e3974a6b68302a34065e3b8279c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 32/35] fix: of two different blocks queued for one position
 both are kept

---
 src/agreementManager/QueueService.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/agreementManager/QueueService.ts b/src/agreementManager/QueueService.ts
index eda6eb6..b756611 100644
--- a/src/agreementManager/QueueService.ts
+++ b/src/agreementManager/QueueService.ts
@@ -40,6 +40,16 @@ export default class QueueService {
         const block = EvmUtils.decodeBlock(sb.encodedBlock);
         const { forkCnt, height } = BlockUtils.getCoordinates(block);
         const participant = BlockUtils.getBlockAuthor(block);
+        // Two different blocks for one position are evidence - keep both
+        const queued = this.blockQ.get(forkCnt)?.get(height)?.get(participant);
+        if (queued && queued.encodedBlock !== sb.encodedBlock)
+            insertNestedMapWithOverwrite(
+                this.blockQ,
+                forkCnt,
+                height,
+                `${String(participant)}-replaced`,
+                queued
+            );
         insertNestedMapWithOverwrite(
             this.blockQ,
             forkCnt,
-- 
2.43.0


From 1c0abfed5a9f82509bcb740ca95a8859aeb698c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 33/35] fix: a block's time does not run ahead of the clocks

A participant whose clock is behind the latest block's time added a second
to it. With quick moves every block did, so that the times ran away from
the ledger's time: its blocks could no longer be posted, and the others
refused them as too far in the future.
---
 src/stateManager/StateManager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 2f803c5..555dfbc 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -635,7 +635,7 @@ class StateManager {
         const latestBlockTimestamp =
             this.agreementManager.getLatestBlockTimestamp(this.getForkCnt());
         if (Number(tx.header.timestamp) < latestBlockTimestamp) {
-            tx.header.timestamp = latestBlockTimestamp + 1;
+            tx.header.timestamp = latestBlockTimestamp;
         }
     }
 
-- 
2.43.0


From 1c822af08bc288bf17153275a6079e04ebae3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:47 +0000
Subject: [PATCH 34/35] fix: a disposed participant closes its connections,
 takes no new ones and ignores messages

---
 src/P2PManager.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/P2PManager.ts b/src/P2PManager.ts
index 75b92a8..0de8e6a 100644
--- a/src/P2PManager.ts
+++ b/src/P2PManager.ts
@@ -58,6 +58,7 @@ class P2PManager implements IOnMessage {
         }
     }
     public onRpc(serializedRpc: string) {
+        if (this.stateManager.isDisposed) return;
         try {
             let rpc = deserializeRpc(serializedRpc);
             if (!rpc) {
@@ -91,6 +92,10 @@ class P2PManager implements IOnMessage {
         await this.holepunch.join(topic);
     }
     public addConnection(transport: ATransport) {
+        if (this.stateManager.isDisposed) {
+            transport.close();
+            return;
+        }
         this.openConnections.push(transport);
         this.localRpcService.initHandshakeService.initHandshake(transport);
     }
@@ -104,6 +109,8 @@ class P2PManager implements IOnMessage {
     public disconnectAll() {
         for (let transport of this.openConnections) {
             this.removeConnection(transport);
+            // Not identified yet - no profile to close it through
+            transport.close();
         }
     }
 }
-- 
2.43.0


From 1c1d8e87ba80df21b854a0f646079c4f611e38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:47 +0000
Subject: [PATCH 35/35] fix: a disposed participant makes no moves

---
 src/stateManager/StateManager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stateManager/StateManager.ts b/src/stateManager/StateManager.ts
index 555dfbc..2b0712f 100644
--- a/src/stateManager/StateManager.ts
+++ b/src/stateManager/StateManager.ts
@@ -320,6 +320,9 @@ class StateManager {
         let rollbackState: string | undefined;
         try {
             console.log("Play Transaction", this.getForkCnt());
+            if (this.isDisposed) {
+                throw new Error("Disposed");
+            }
             if (!this.isChannelOpen()) {
                 throw new Error("Channel not open");
             }
-- 
2.43.0


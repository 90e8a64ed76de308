// What the simulator takes from the SDK. Everything a node runs is the code in /repo/src.
export { Clock, EvmStateMachine, P2pSigner, EvmUtils } from "@repo/index";

// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

import "contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol";
import "./VaultStateMachine.sol";

/// Ledger side of the second application: records every deposit taken and every exit paid as an event.
contract VaultManagerProxy is AStateChannelManagerProxy {
    event Deposit(bytes32 indexed channelId, address participant, uint amount);
    event Payout(bytes32 indexed channelId, address participant, uint amount);

    constructor(address machine, address facet) AStateChannelManagerProxy(machine, facet) {
        p2pTime = 5;
        agreementTime = 5;
        chainFallbackTime = 5;
        challengeTime = 5;
    }

    function openChannel(bytes32 channelId, bytes[] calldata data, bytes[] calldata signatures) public virtual override {
        require(data.length > 0 && data.length == signatures.length, "Vault: length");
        require(channelId != bytes32(0) && !isChannelOpen(channelId), "Vault: open");
        VaultState memory s;
        s.participants = new address[](data.length);
        s.balances = new uint[](data.length);
        for (uint i = 0; i < data.length; i++) {
            JoinChannel memory jc = abi.decode(data[i], (JoinChannel));
            address[] memory who = new address[](1);
            who[0] = jc.participant;
            bytes[] memory sig = new bytes[](1);
            sig[0] = signatures[i];
            (bool ok, ) = StateChannelUtilLibrary.verifyThresholdSigned(who, data[i], sig);
            require(ok && jc.channelId == channelId && jc.amount > 0 && jc.deadlineTimestamp > block.timestamp, "Vault: join");
            s.participants[i] = jc.participant;
            s.balances[i] = jc.amount;
            emit Deposit(channelId, jc.participant, jc.amount);
        }
        bytes memory enc = abi.encode(s);
        encodedStates[channelId][0] = enc;
        genesisTimestamps[channelId][0] = block.timestamp;
        emit SetState(channelId, enc, 0, block.timestamp);
    }

    function closeChannel(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function removeParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function addParticipant(bytes32, bytes[] calldata, bytes[] calldata) public virtual override {}

    function _addParticipantComposable(JoinChannel memory jc) internal virtual override returns (bool) {
        if (jc.amount == 13) return false; // stands for a deposit that cannot be taken
        emit Deposit(jc.channelId, jc.participant, jc.amount);
        return true;
    }

    function _removeParticipantComposable(bytes32 channelId, ProcessExit memory e) internal virtual override returns (bool) {
        emit Payout(channelId, e.participant, e.amount);
        return true;
    }
}

'use strict';
// Small changes to the contracts that break a property: [id, property or properties, file, old text, new text, ...]
const D = 'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', A = 'contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol', C = 'contracts/V1/StateChannelDiamondProxy/StateChannelCommon.sol', U = 'contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', S = 'contracts/V1/AStateMachine.sol', X = 'contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol', Y = 'contracts/V1/examples/MathStateMachine/MathStateMachine.sol';
module.exports = [
    ['C01', 'P11', D, `            require(
                block1.transaction.header.transactionCnt ==
                    block2.transaction.header.transactionCnt,
                ErrorTransactionCountMismatch()
            );
            require(
                keccak256(doubleSign`, `            require(
                keccak256(doubleSign`],
    ['C01b', 'P11', D, `            require(
                keccak256(doubleSign.block1.encodedBlock) !=
                    keccak256(doubleSign.block2.encodedBlock),
                ErrorDoubleSignBlocksAreSame()
            );`, ''],
    ['C01c', 'P11', D, 'block1.transaction.header.channelId == dispute.channelId &&\n                    block2.transaction.header.channelId == dispute.channelId,\n                ErrorChannelIdMismatch()', 'block1.transaction.header.channelId == dispute.channelId,\n                ErrorChannelIdMismatch()'],
    ['C01d', 'P11', D, 'block1.transaction.header.forkCnt == dispute.forkCnt &&\n                    block2.transaction.header.forkCnt == dispute.forkCnt,\n                ErrorDisputeForkMismatch()', 'block2.transaction.header.forkCnt == dispute.forkCnt,\n                ErrorDisputeForkMismatch()'],
    ['C01e', 'P11', D, 'require(retrived1 == retrived2, ErrorDoubleSignSignersNotTheSame());', ''],
    ['C01f', 'P11', D, `                insertIfNotExist(dispute.slashedParticipants, retrived1) ||
                success;`, `                insertIfNotExist(dispute.slashedParticipants, block1.transaction.header.participant) ||
                success;`],
    ['C01g', 'P11,P14', D, `            if (success)
                tryCancelFold(
                    dispute,
                    block1.transaction.header.transactionCnt
                );
        }
        return success;`, `        }
        return success;`],
    ['C02', 'P14', D, `        require(
            _block.transaction.header.transactionCnt ==
                dispute.foldedTransactionCnt,
            ErrorTransactionCountMismatch()
        );
        //There`, '        //There'],
    ['C02b', 'P14', D, `        (bool succeeds, ) = StateChannelUtilLibrary.verifyThresholdSigned(
            dispute.participants,
            foldRechallengeProof.encodedBlock,
            foldRechallengeProof.signatures
        );
        require(succeeds, ErrorSignatureInvalid());
        dispute`, '        dispute'],
    ['C02c', 'P14', D, 'if (dispute.timedoutParticipant == address(0)) return false;', ''],
    ['C02d', 'P14', D, 'dispute.timedoutParticipant = address(0); //Undo the fold', ''],
    ['C03', 'P12', D, 'return isGenesis || countThreshold == thresholdSingers.length;', 'return isGenesis || countThreshold + 1 >= thresholdSingers.length;'],
    ['C03b', 'P12', D, '                    previousStateHash == _block.previousStateHash,', '                    i != 0 || previousStateHash == _block.previousStateHash,'],
    ['C03c', 'P12', D, '            if (i == virtualVotingBlocks.length - 1) {', '            if (i + 1 == virtualVotingBlocks.length && (isGenesis || i > 0)) {'],
    ['C03d', 'P12', D, 'if (retrivedAddress == _block.transaction.header.participant) {', 'if (StateChannelUtilLibrary.isAddressInArray(thresholdSingers, retrivedAddress)) {'],
    ['C03e', 'P12', D, `            require(
                _block.transaction.header.forkCnt == forkCnt,
                ErrorDisputeForkMismatch()
            );

            bool isSigned`, '            bool isSigned'],
    ['C03f', 'P12', D, 'previousStateHash = _block.stateHash;', 'if (i == 0 || isGenesis) previousStateHash = _block.stateHash;'],
    ['C03g', 'P12', D, 'finalizedStateHash == _block.stateHash,', 'finalizedStateHash == _block.stateHash || finalizedStateHash == _block.previousStateHash,'],
    ['C04', 'P13', D, `                newBlock.transaction.header.transactionCnt >=
                    oldBlock.transaction.header.transactionCnt,`, `                newBlock.transaction.header.transactionCnt + 1 >=
                    oldBlock.transaction.header.transactionCnt,`],
    ['C05', 'P13', D, 'dispute.deadlineTimestamp > block.timestamp,', 'dispute.deadlineTimestamp >= block.timestamp,'],
    ['C05b', 'P13', D, '        dispute.deadlineTimestamp = block.timestamp + getChallengeTime();\n        dispute.challengeCnt++;', '        dispute.challengeCnt++;'],
    ['C05c', 'P13', D, 'require(notSlashed, ErrorParticipantAlredySlashed());', ''],
    ['C05d', 'P13', D, '        dispute.challengeCnt++;', ''],
    ['C05e', 'P13', D, `        require(
            dispute.challengeCnt == challengeCnt,
            ErrorDisputeChallengeMismatch()
        );`, ''],
    ['C05f', 'P13', D, 'require(applyProofs(dispute, proofs), ErrorDisputeInvalid());', 'applyProofs(dispute, proofs);'],
    ['C05g', 'P13', D, `        dispute.postedStateDisputer = msg.sender;
        dispute.deadlineTimestamp`, '        dispute.deadlineTimestamp'],
    ['C05h', 'P13', D, 'require(!isSlashed, ErrorSlashedParticipantCantDispute());', ''],
    ['C06', 'P14', D, 'if (lastBlockTimestamp > latestTimestamp)\n                    latestTimestamp = lastBlockTimestamp;', 'if (latestTimestamp == 0)\n                    latestTimestamp = lastBlockTimestamp;'],
    ['C06b', 'P14', D, `                        getAgreementTime() +
                        getChainFallbackTime()
                ) {`, `                        getAgreementTime()
                ) {`],
    ['C06c', 'P14', D, `            require(
                timedoutParticipant ==
                    getNextToWrite(channelId, encodedLatestCorrectState),
                ErrorTimeoutParticipantNotNextToWrite()
            );`, ''],
    ['C06d', 'P14', D, 'require(timedoutParticipant != msg.sender, ErrorTimeoutSelf());', ''],
    ['C06e', 'P14', D, 'uint latestTimestamp = getGenesisTimestamp(channelId, forkCnt);', 'uint latestTimestamp = getGenesisTimestamp(channelId, 0);'],
    ['C06f', 'P14', D, 'latestTimestamp = lastBlock.transaction.header.timestamp;', 'if (foldedTransactionCnt == 1) latestTimestamp = lastBlock.transaction.header.timestamp;'],
    ['C06g', 'P14', D, 'block.timestamp <\n                    latestTimestamp +', 'block.timestamp + 1 <\n                    latestTimestamp +'],
    ['C07', 'P20', X, 'joinChannels[i].deadlineTimestamp > block.timestamp,', 'joinChannels[0].deadlineTimestamp > block.timestamp,'],
    ['C07b', 'P20', X, 'channelId == joinChannels[i].channelId,', 'true,'],
    ['C07c', 'P20', X, 'addressesInThreshold[0] = joinChannels[i].participant;', 'addressesInThreshold[0] = joinChannels[0].participant;'],
    ['C07d', 'P20', X, 'joinChannels[i].amount > 0,', 'joinChannels[i].amount > 0 || i > 0,'],
    ['C07e', 'P20', X, '!isChannelOpen(channelId),', '!isChannelOpen(channelId) || latestFork[channelId] > 0,'],
    ['C07f', 'P20', X, 'genesisTimestamps[channelId][0] = block.timestamp;', ''],
    ['C08', 'P21,P14', C, 'key.transactionCnt <= maxTransactionCnt', 'key.transactionCnt < maxTransactionCnt'],
    ['C08b', 'P21', A, `        forkDataAvailability.keys.push(
            ForkDataAvailabilityKey(transactionCnt, msg.sender)
        );`, `        if (transactionCnt > 0) forkDataAvailability.keys.push(
            ForkDataAvailabilityKey(transactionCnt, msg.sender)
        );`],
    ['C08c', 'P21', A, 'block.timestamp - p2pTime - agreementTime - chainFallbackTime,', 'block.timestamp - p2pTime - agreementTime - chainFallbackTime - challengeTime,'],
    ['C08d', 'P21', A, '_block.transaction.header.timestamp <= block.timestamp,', '_block.transaction.header.timestamp <= block.timestamp + agreementTime,'],
    ['C08e', 'P21', A, 'msg.sender == _block.transaction.header.participant,', 'true,'],
    ['C08f', 'P21', C, `                .map[key.transactionCnt][key.participant].timestamp >
                latestTimestamp &&`, `                .map[key.transactionCnt][key.participant].timestamp >
                latestTimestamp && i + 1 == forkDataAvailability.keys.length &&`],
    ['C09', 'P24', A, 'delete dispute.processExits; //clears the array', ''],
    ['C09b', 'P24', A, 'bool isExpired = dispute.deadlineTimestamp < block.timestamp;', 'bool isExpired = true;'],
    ['C09c', 'P24', A, `        tryProcessOldExits(leaveChannel.channelId);`, ''],
    ['C09d', 'P24', A, 'latestFork[joinChannel.channelId] == joinChannelAgreement.forkCnt,', 'latestFork[joinChannel.channelId] >= joinChannelAgreement.forkCnt,'],
    ['C09e', 'P24', A, 'keccak256(encodedState) == leaveChannel.previousStateHash,', 'true,'],
    ['C09f', 'P24', A, `        require(
            !isParticipant,
            "AStateChannelManager: joinChannelWithAgreement - joiner is participant"
        );`, ''],
    ['C09g', 'P24', A, `            "AStateChannelManager: joinChannelWithAgreement - initial signature invalid"`, `            "x"`, `        (success, ) = StateChannelUtilLibrary.verifyThresholdSigned(
            p,
            signedJoinChannel.encodedJoinChannel,
            signature
        );`, ''],
    ['C09h', 'P24', A, `        require(
            msg.sender == joinChannelAgreement.submitter,
            "AStateChannelManager: joinChannelWithAgreement - msg.sender != submitter"
        );`, ''],
    ['C09i', 'P24', A, `            !isDisputeInProgress(leaveChannel.channelId),`, 'true,'],
    ['C10', 'P13,P14', C, 'genesisTimestamps[channelId][newForkCnt] = block.timestamp;', 'genesisTimestamps[channelId][newForkCnt] = genesisTimestamps[channelId][newForkCnt - 1];'],
    ['C11', 'P20,P24,P14', U, `                        count++;
                        countRemaining[j] = 0;
                        break;`, `                        count++;
                        break;`],
    ['C11b', 'P20,P24', U, `                count++;
                countRemaining[i] = 0;`, `                count++;`],
    ['C12', 'P12', U, 'if (!found) return currentSetLength;', ''],
    ['C12b', 'P12', U, 'if (set[i] == adr) return currentSetLength;', 'if (i + 1 == currentSetLength && set[i] == adr) return currentSetLength;'],
    ['C13', 'P14', D, 'if (successfulProofTransactionCnt < dispute.foldedTransactionCnt) {', 'if (successfulProofTransactionCnt <= dispute.foldedTransactionCnt) {'],
    ['C14', 'P13,P11', D, `                _block.transaction.header.transactionCnt >
                    latestKnownBlock`, `                _block.transaction.header.transactionCnt >=
                    latestKnownBlock`],
    ['C14b', 'P13,P11', D, 'retrivedAddress == dispute.postedStateDisputer,', 'StateChannelUtilLibrary.isAddressInArray(dispute.participants, retrivedAddress),'],
    ['C15', 'P13', D, 'require(getForkCnt(channelId) == forkCnt, ErrorDisputeForkMismatch());', 'require(getForkCnt(channelId) >= forkCnt, ErrorDisputeForkMismatch());'],
    ['C15b', 'P13', D, 'require(!isDisputeInProgress(channelId), ErrorDisputeInProgrees());', ''],
    ['C15c', 'P13', C, 'disputes[channelId].deadlineTimestamp < block.timestamp);', 'disputes[channelId].deadlineTimestamp <= block.timestamp);'],
    ['C15d', 'P13', D, '        require(isParticipant, ErrorNotParticipant());\n\n        require(\n            isFinalized', '        require(\n            isFinalized'],
    ['C16', 'P24,P13', D, `        // Clear processExits
        delete dispute.processExits;`, ''],
    ['C16b', 'P13,P24', D, `            latestEncodedState,
            dispute.slashedParticipants
        );
        for (uint i = 0; i < successCnt; i++)
            dispute.processExits.push(processExits[i]);`, `            latestEncodedState,
            dispute.slashedParticipants
        );`],
    ['C16c', 'P13', D, '        dispute.encodedLatestCorrectState = latestEncodedState;\n    }', '        if (successCnt > 0) dispute.encodedLatestCorrectState = latestEncodedState;\n    }'],
    ['C17', 'P13,P24', D, 'require(!isParticipant, ErrorJoinChannelAlreadyInChannel());', ''],
    ['C17b', 'P13,P24', D, 'require(jc.channelId == dispute.channelId, ErrorChannelIdMismatch());', ''],
    ['C17c', 'P13,P24', D, `            msg.sender ==
                getNextToWrite(
                    dispute.channelId,
                    dispute.encodedLatestCorrectState
                ),`, 'true,'],
    ['C18', 'P14', D, '!found || _blockCalldata.timestamp > dispute.creationTimestamp,', 'found || _blockCalldata.timestamp <= dispute.creationTimestamp,'],
    ['C18b', 'P14', D, 'foldPriorBlockProof.transactionCnt < dispute.foldedTransactionCnt,', 'foldPriorBlockProof.transactionCnt <= dispute.foldedTransactionCnt,'],
    ['C19', 'P11', D, `        uint referenceTime = latestChainTimestamp > lastTransactionTimestamp
            ? latestChainTimestamp
            : lastTransactionTimestamp;`, '        uint referenceTime = lastTransactionTimestamp;'],
    ['C19b', 'P11', D, 'if (timestamp < lastTransactionTimestamp) return false;', 'if (timestamp <= lastTransactionTimestamp) return false;'],
    ['C19c', 'P11', D, `            previousTimestamp = getGenesisTimestamp(
                dispute.channelId,
                dispute.forkCnt
            );`, `            previousTimestamp = 0;`],
    ['C20', 'P11', D, '_block.transaction.header.timestamp > block.timestamp,', '_block.transaction.header.timestamp + getP2pTime() > block.timestamp,'],
    ['C21', 'P11', D, 'else if (block2.stateHash != keccak256(executedEncodedState))', 'else if (block2.stateHash != keccak256(executedEncodedState) && block2.stateHash != block2.previousStateHash)'],
    ['C22', 'P11', D, `            require(
                block2.previousStateHash == block1.stateHash,
                ErrorIncorrectDataBlocksNotLinked()
            );`, ''],
    ['C23', 'P02', Y, `                state.participants[i] = state.participants[length - 1];
                state.participants.pop();`, `                for (uint256 j = i; j + 1 < length; j++) state.participants[j] = state.participants[j + 1];
                state.participants.pop();`]
];
